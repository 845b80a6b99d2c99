"""C01 cross-fitting honesty: every set partition of blocks of observations into folds x model catalogue x storage/parameter
modes; each stored prediction must be the output of a learner fitted on exactly the right training rows (spy log), and must not
react to a permutation of the outcomes of the fold that it predicts (non-interference)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc.catalog import catalog, idmap, smpls_from_labels
from mc.core import Check, close, set_partitions
from mc.honesty import check_honesty
from mc.scorecases import ladder_labels
from mc.spy import CTL

MODES = ["plain", "models", "params", "foldparams"]
NO_NONINT = {"PLR-iv", "PLR-call", "PLR-iv-2d", "PLIV-iv"}  # the preliminary effect estimate uses the whole sample by design


def fold_lam(name, it, ir, k):
    return 0.3 + 0.05 * (sum(map(ord, name)) % 7) + 0.4 * it + 0.9 * ir + 0.11 * k


def all_train_test(n):
    a = np.arange(n)
    return [[(a, a)]]


def run_fit(cfg, df, smpls, mode, **build):
    m = cfg.build(df, n_rep=build.pop("n_rep", 1), **build)
    m.set_sample_splitting(smpls[0] if smpls[0][0][0] is smpls[0][0][1] else smpls)
    lam = None
    if mode == "params":
        for nm in m.params_names:
            for it, d in enumerate(cfg.treats):
                m.set_ml_nuisance_params(nm, d, {"lam": fold_lam(nm, it, 0, 0)})
        lam = lambda name, it, ir, k: fold_lam(name, it, 0, 0)
    elif mode == "foldparams":
        for nm in m.params_names:
            for it, d in enumerate(cfg.treats):
                m.set_ml_nuisance_params(
                    nm, d, [[{"lam": fold_lam(nm, it, ir, k)} for k in range(len(rep))] for ir, rep in enumerate(smpls)])
        lam = fold_lam
    CTL.reset(idmap(df))
    m.fit(store_models=(mode == "models"))
    return m, lam


def case_fn(case, rec):
    if case["kind"] == "composite":
        return composite_case(case, rec)
    cfg = catalog(case.get("n_rep", 1))[case["cfg"]]
    df = cfg.frame(case["seed"], blocks=case["B"])
    n = len(df)
    n_rep = case.get("n_rep", 1)
    use_other = case.get("use_other", True)
    build = dict(n_rep=n_rep, use_other=use_other)
    rec.state(cfg.name, case["labels"], case["mode"], use_other)
    if case["kind"] == "drawn":
        np.random.seed(case["seed"] + 17)
        m = cfg.build(df, n_folds=case["n_folds"], draw=True, **build)
        smpls = m.smpls
        CTL.reset(idmap(df))
        m.fit()
        lam = None
    else:
        if case["kind"] == "nocf":
            smpls = all_train_test(n)
        else:
            smpls = [smpls_from_labels(df.block, lab) for lab in case["labels"]]
        m, lam = run_fit(cfg, df, smpls, case["mode"], **build)
    rec.outcome(cfg.name, case["labels"], case["mode"], np.round(m.coef, 8).tolist())
    from mc.catalog import nonestimated

    skip = set(nonestimated(cfg))
    ok = check_honesty(rec, cfg, df, m, smpls, use_other=use_other, skip=skip, exact_lam=lam)
    for nm, c in nonestimated(cfg).items():
        rec.expect(np.all(m.predictions[nm] == c), f"constant:{cfg.name}:{nm}", "switched-off nuisance function is not constant")
    if not ok or case["mode"] != "plain" or case["kind"] != "part" or n_rep > 1:
        return
    # non-interference: permute the outcome among same-cell observations of one test fold
    opts = cfg.options(df)
    for k, (tr, te) in enumerate(smpls[0]):
        df2 = df.copy()
        y = df["y"].to_numpy(dtype=float).copy()
        key = df["d"].round(6).to_numpy() if cfg.kind != "cont" else np.zeros(n)
        for v in np.unique(key[te]):
            idx = np.array([i for i in te if key[i] == v])
            y[idx] = np.roll(y[idx], 1)
        df2["y"] = y
        m2, _ = run_fit(cfg, df2, smpls, "plain", **build)
        rec.step()
        for nm in cfg.roles:
            if nm == "ml_g" and cfg.name in NO_NONINT:
                continue
            a, b = m.predictions[nm][te], m2.predictions[nm][te]
            rec.expect(close(a, b, rtol=1e-9, atol=1e-10), f"interference:{cfg.name}:{nm}",
                       f"predictions of {nm} for fold {k} change when only outcomes of that fold are permuted")


def composite_case(case, rec):
    import doubleml as dml

    cat = catalog()
    if case["cfg"] == "APOS":
        base = cat["APO-1"]
        df = base.frame(case["seed"], blocks=case["B"])
        from mc.spy import clf, lin

        m = dml.DoubleMLAPOS(base.data(df), lin("ml_g"), clf("ml_m", 2.0), treatment_levels=[2, 0, 1], n_folds=2,
                             draw_sample_splitting=False)
        smpls = [smpls_from_labels(df.block, lab) for lab in case["labels"]]
        m.set_sample_splitting(smpls)
        CTL.reset(idmap(df))
        m.fit()
        from mc.catalog import Cfg, _apo_roles

        for lev, sub in zip([2, 0, 1], m.modellist):
            c = Cfg(f"APOS-{lev}", "", "lvl", 2, {}, {}, {}, _apo_roles(lev))
            rec.state("APOS", lev, case["labels"])
            check_honesty(rec, c, df, sub, smpls, opts={})
    else:
        from mc.spy import clf, lin

        sc = case["cfg"].split("-")[1]
        base = cat[{"PQ": "PQ-1", "LPQ": "LPQ-1", "CVaR": "CVaR-1"}[sc]]
        df = base.frame(case["seed"], blocks=case["B"])
        g = lin("ml_g") if sc == "CVaR" else clf("ml_g")
        m = dml.DoubleMLQTE(base.data(df), g, clf("ml_m", 2.0), quantiles=[0.3, 0.6], score=sc, n_folds=2,
                            draw_sample_splitting=False)
        smpls = [smpls_from_labels(df.block, lab) for lab in case["labels"]]
        m.set_sample_splitting(smpls)
        CTL.reset(idmap(df))
        m.fit()
        for tr, lst in ((0, m.modellist_0), (1, m.modellist_1)):
            for q, sub in zip([0.3, 0.6], lst):
                c = cat[{"PQ": "PQ", "LPQ": "LPQ", "CVaR": "CVaR"}[sc] + f"-{tr}"]
                o = dict(c.options(df), quantile=q, treatment=tr)
                rec.state("QTE", sc, tr, q, case["labels"])
                check_honesty(rec, c, df, sub, smpls, opts=o)
    rec.outcome(case["cfg"], case["labels"], np.round(m.coef, 8).tolist())


def cases(tier, seed):
    B = 4 if tier == "quick" else 5
    parts = [list(p) for p in set_partitions(B, 2)]
    seeds = [seed] if tier == "quick" else [seed, seed + 1000]
    for s in seeds:
        for nm, cfg in catalog().items():
            for p in parts:
                for mode in MODES:
                    yield dict(kind="part", cfg=nm, name=nm, labels=[p], mode=mode, B=B, seed=s)
            if len(cfg.treats) > 1:
                for p in parts:
                    yield dict(kind="part", cfg=nm, name=nm, labels=[p], mode="plain", B=B, seed=s, use_other=False)
            # two repetitions: ordered pairs of partitions with equally many folds
            for i, p in enumerate(parts):
                for q in parts[: len(parts) if tier == "thorough" else 6]:
                    if max(p) == max(q) and p != q:
                        for mode in ("plain", "foldparams") if tier == "thorough" else (("foldparams",) if i % 2 else ("plain",)):
                            yield dict(kind="part", cfg=nm, name=nm, labels=[p, q], mode=mode, B=B, seed=s, n_rep=2)
            for j, (nr, k, b) in enumerate(((4, 5, 5), (1, 10, 10), (7, 2, 4), (3, 4, 8)) + (((11, 3, 6), (1, 20, 20)) if tier == "thorough" else ())):
                for mode in MODES if tier == "thorough" else (MODES[j % 4], MODES[(j + 1) % 4]):
                    yield dict(kind="ladder", cfg=nm, name=nm, labels=ladder_labels(b, k, nr), mode=mode, B=b, seed=s, n_rep=nr)
            if not cfg.nested:
                for mode in MODES:
                    yield dict(kind="nocf", cfg=nm, name=nm, labels="all", mode=mode, B=B, seed=s)
            for nf, nr in ((2, 1), (2, 2), (3, 1), (3, 2), (5, 3)):
                yield dict(kind="drawn", cfg=nm, name=nm, labels=f"drawn{nf}", mode="plain", B=B, seed=s, n_folds=nf, n_rep=nr)
        for p in parts:
            for nm in ("APOS", "QTE-PQ", "QTE-LPQ", "QTE-CVaR"):
                yield dict(kind="composite", cfg=nm, name=nm, labels=[p], mode="plain", B=B, seed=s)


if __name__ == "__main__":
    Check("C01", case_fn, cases, rule="all set partitions of B blocks into >=2 folds (and ordered pairs of partitions as two "
          "repetitions) x model catalogue x {plain, stored models, global parameters, fold-specific parameters}; outcome of each "
          "test fold permuted within treatment cells for non-interference",
          assumptions=["learners are deterministic functions of their training rows, targets, parameters and query point",
                       "observations enter folds in whole blocks; each block contains every treatment/instrument/period cell"]).main()
