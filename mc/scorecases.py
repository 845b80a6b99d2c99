"""Executions for the score properties: every enumerated assignment of nuisance predictions (through external predictions or
table learners), treatment patterns and options, and full fits with spy learners over the whole catalogue."""
import itertools

import numpy as np

from mc.catalog import catalog, idmap, nonestimated, rng_for, smpls_from_labels
from mc.spy import CTL, TabClf, TabReg

MA = {"quick": [0.0, 0.004, 0.4, 1.0], "thorough": [0.0, 0.004, 0.03, 0.35, 0.8, 1.0]}
GA = {"quick": [0.0, 1.5, -2.0], "thorough": [0.0, 1.5, -2.0, 40.0]}
PA = {"quick": [0.0, 0.3, 1.0], "thorough": [0.0, 0.3, 0.8, 1.0]}
TA = {"quick": [0.25, 0.6, 0.9], "thorough": [0.05, 0.25, 0.6, 0.9]}


def fam(cfg):
    return cfg.name.split("-")[0]


def tiny(cfg, seed):
    f = fam(cfg)
    pc = {"PLR": 2, "PLIV": 2, "IRM": 1, "DID": 1, "IIVM": 1, "DIDCS": 1, "APO": 3, "PQ": 2, "LPQ": 1, "CVaR": 4, "SSM": 4}[f]
    if cfg.kind in ("bin",) and cfg.name == "PLR-bin":
        pc = 1
    if cfg.name in ("APO-1-biny",):
        pc = 2
    if cfg.name == "SSM-mar-biny" or cfg.name == "SSM-non-biny":
        pc = 2
    if cfg.name.startswith("SSM-mar"):
        pc = 1
    return cfg.frame(seed, blocks=2, per_cell=pc)


def groups(n, G):
    return (np.arange(n) * 5 // 3 + np.arange(n) // 4) % G if n > G else np.arange(n)


def alphabet(cfg, role, tier):
    r = cfg.roles[role]
    if r.clip or (role == "ml_m_z"):
        return MA[tier]
    if cfg.name.startswith("SSM") and role == "ml_pi":
        return TA[tier]
    if r.proba:
        return PA[tier]
    return GA[tier]


def generic(cfg, role, n, seed, d_col):
    r = cfg.roles[role]
    rng = rng_for(seed, "gen", cfg.name, role, d_col)
    if r.proba or r.clip:
        return 0.15 + 0.7 * rng.rand(n)
    return rng.randn(n)


def opt_variants(cfg, tier):
    """option variants beyond those of the configuration itself"""
    out = [{}]
    if any(r.clip for r in cfg.roles.values()) or fam(cfg) == "LPQ":
        if "trimming_threshold" not in cfg.kw:
            out.append({"trimming_threshold": 0.3})
            if tier == "thorough":
                out.append({"trimming_threshold": 1e-12})
    return out


def cases(tier, seed):
    for nm, cfg in catalog().items():
        # full fits
        for n_rep, k, thr in itertools.product((1, 2, 3), (2, 3) if not cfg.nested else (2,),
                                               (None, 0.25) if tier == "quick" else (None, 0.05, 0.25, 0.45)):
            if thr is not None and not (any(r.clip for r in cfg.roles.values()) or fam(cfg) == "LPQ"):
                continue
            yield dict(kind="full", cfg=nm, name=nm, n_rep=n_rep, k=k, thr=thr, seed=seed, tier=tier)
        # larger samples, more folds and repetitions
        for n_rep, k, B, pc in ((4, 5, 5, 1), (1, 10, 10, 1), (7, 2, 4, 1), (2, 4, 8, 4), (1, 2, 4, 40)) + (((11, 3, 6, 1), (1, 20, 20, 2), (5, 6, 12, 5)) if tier == "thorough" else ()):
            yield dict(kind="full", cfg=nm, name=nm, n_rep=n_rep, k=k, thr=None, seed=seed, tier=tier, B=B, pc=pc)
        for iv, ov in enumerate(opt_variants(cfg, tier)):
            roles = [r for r in cfg.roles if r not in nonestimated(cfg)]
            for r in roles:
                yield dict(kind="role", cfg=nm, name=nm, ov=ov, role=r, seed=seed, tier=tier)
            yield dict(kind="joint", cfg=nm, name=nm, ov=ov, seed=seed, tier=tier)
            if cfg.kind == "bin" and cfg.ext:
                yield dict(kind="dpat", cfg=nm, name=nm, ov=ov, seed=seed, tier=tier)
        if tier == "thorough":
            for s in range(1, 4):
                yield dict(kind="full", cfg=nm, name=nm, n_rep=2, k=2, thr=None, seed=seed + 100 * s, tier=tier)


def ladder_labels(B, k, n_rep):
    """n_rep different balanced assignments of B blocks to k folds"""
    out = []
    for r in range(n_rep):
        lab = [i % k for i in range(B)]
        out.append([int(v) for v in np.random.RandomState(r).permutation(lab)] if r else lab)
    return out


def executions(case):
    """yields (cfg, df, model, opts, smpls, supplied) for every execution of the case"""
    tier, seed = case["tier"], case["seed"]
    if case["kind"] == "full":
        cfg = catalog(case["n_rep"])[case["cfg"]]
        df = cfg.frame(seed, blocks=case.get("B", 4), per_cell=cfg.per_cell * case.get("pc", 1))
        labs = ladder_labels(case["B"], case["k"], case["n_rep"]) if "B" in case else [[0, 1, 0, 1], [0, 0, 1, 1], [0, 1, 1, 0]] if case["k"] == 2 else [[0, 1, 2, 1], [0, 0, 1, 2], [0, 1, 2, 0]]
        smpls = [smpls_from_labels(df.block, labs[i]) for i in range(case["n_rep"])]
        ov = {} if case["thr"] is None else {"trimming_threshold": case["thr"]}
        m = cfg.build(df, n_rep=case["n_rep"], **ov)
        m.set_sample_splitting(smpls)
        CTL.reset(idmap(df))
        m.fit()
        yield cfg, df, m, dict(cfg.options(df), **ov), smpls, None, "spy"
        return
    cfg = catalog()[case["cfg"]]
    df = tiny(cfg, seed)
    ov = case["ov"]
    n = len(df)
    smpls = [smpls_from_labels(df.block, [0, 1])]
    roles = list(cfg.roles)
    base = {(d, r): generic(cfg, r, n, seed, d) for d in cfg.treats for r in roles}
    G = 4
    gid = groups(n, G)

    def plans():
        if case["kind"] == "role":
            al = alphabet(cfg, case["role"], tier)
            for a in itertools.product(al, repeat=G):
                v = np.array(a)[gid]
                yield df, {(d, r): (v.astype(float) if r == case["role"] and d == cfg.treats[0] else base[d, r])
                           for (d, r) in base}, (case["role"], a)
        elif case["kind"] == "joint":
            # every role takes one of three values on half of the sample each
            opts_r = []
            for r in roles:
                al = alphabet(cfg, r, tier)
                pick = [al[0], al[-1]]
                opts_r.append([(pick[0], pick[1]), (pick[1], pick[0]), (pick[1], pick[1]), (0.3, 0.6)])
            for combo in itertools.product(*opts_r) if len(roles) <= 5 else [c for c in itertools.product(*[o[:3] for o in opts_r])]:
                sel = {}
                for (d, r) in base:
                    a = combo[roles.index(r)]
                    v = np.array([a[i % 2] for i in range(n)], dtype=float)
                    sel[d, r] = v if d == cfg.treats[0] else base[d, r]
                yield df, sel, combo
        else:
            step = 1 if n <= 4 else 1
            pats = [p for p in itertools.product((0, 1), repeat=min(n, 8)) if 0 < sum(p) < min(n, 8)]
            for p in pats[::step]:
                df2 = df.copy()
                df2["d"] = np.array((p * (n // len(p) + 1))[:n], dtype=float)
                if df2["d"].nunique() < 2:
                    continue
                yield df2, base, p
                if "ml_m" in roles:
                    for a, b in ((0.0, 1.0), (1.0, 0.0), (0.3, 0.9)):
                        sel = dict(base)
                        sel[cfg.treats[0], "ml_m"] = np.array([a if i % 2 else b for i in range(n)])
                        yield df2, sel, (p, a, b)

    for dfx, vals, what in plans():
        if any(set(np.unique(vals[d, r])) <= {0.0, 1.0} and not role.clip
               for (d, r) in vals for role in [cfg.roles[r]] if role.proba):
            continue  # label-like probability predictions are rejected by contract (C09/C10)
        if cfg.ext:
            try:
                m = cfg.build(dfx, **ov)
            except ValueError as e:
                if "observations is less than 5" in str(e):
                    continue
                raise
            m.set_sample_splitting(smpls)
            CTL.reset()
            m.fit(external_predictions={d: {r: vals[d, r].reshape(-1, 1).copy() for r in roles} for d in cfg.treats})
        else:
            ls = {a: (TabReg if typ == "r" else TabClf)(tag=a) for a, (typ, _) in cfg.args.items()}
            m = cfg.build(dfx, learners=ls, **ov)
            m.set_sample_splitting(smpls)
            CTL.reset(idmap(dfx))
            dd = dfx["d"].to_numpy()
            vd = {r: vals[cfg.treats[0], r] for r in roles}

            def table(tag, fit_rows, pred_rows):
                if cfg.name.startswith("SSM") and tag == "ml_g":
                    r = "ml_g_d1" if np.all(dd[list(fit_rows)] == 1) else "ml_g_d0"
                else:
                    r = tag
                return vd[r][list(pred_rows)]

            CTL.table = table
            m.fit()
        yield cfg, dfx, m, dict(cfg.options(dfx), **ov), smpls, vals, what
