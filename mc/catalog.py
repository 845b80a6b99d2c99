"""Model catalogue: every model class x score x option combination the checks range over.

Each configuration knows how to generate data (blocks that each contain every required cell, so that any
partition of blocks into folds is estimable), how to build the model through the public constructors, and
which nuisance roles the model has (target, training subset, covariates)."""
import zlib

import numpy as np
import pandas as pd

from mc.spy import clf, lin

XC = ["X1", "X2"]


def rng_for(seed, *key):
    return np.random.RandomState((int(seed) * 7919 + zlib.crc32(repr(key).encode())) % (2**31 - 1))


# ------------------------------------------------------------------ data
IVC = [(0, 0), (1, 1), (1, 0), (0, 0), (1, 1), (0, 1)]
CELLS = {
    "cont": [dict()],
    "bin": [dict(d=0), dict(d=1)],
    "biny": [dict(d=0, y=0), dict(d=0, y=1), dict(d=1, y=0), dict(d=1, y=1)],
    "iv": [dict(d=a, z=b) for a, b in IVC],
    "ivy": [dict(d=a, z=b, y=c) for a, b in IVC for c in (0, 1)],
    "cs": [dict(d=a, t=b) for a in (0, 1) for b in (0, 1)],
    "csy": [dict(d=a, t=b, y=c) for a in (0, 1) for b in (0, 1) for c in (0, 1)],
    "ssm": [dict(d=a, s=b) for a in (0, 1) for b in (0, 1)],
    "ssmy": [dict(d=a, s=b, y=c) for a in (0, 1) for b in (0, 1) for c in (0, 1)],
    "lvl": [dict(d=0), dict(d=1), dict(d=2)],
    "lvly": [dict(d=a, y=c) for a in (0, 1, 2) for c in (0, 1)],
}


def make_df(kind, blocks, per_cell, seed, extra_x=0):
    cells = CELLS[kind]
    m = len(cells) * per_cell
    n = m * blocks
    rng = rng_for(seed, kind, blocks, per_cell)
    block = np.arange(n) % blocks
    within = np.arange(n) // blocks
    df = pd.DataFrame()
    perm = rng.permutation(n)
    df["X1"] = np.round((perm + 0.5 + 0.3 * rng.rand(n)) / n * 2 - 1, 8)
    df["X2"] = rng.randn(n)
    for j in range(extra_x):
        df[f"X{3 + j}"] = rng.randn(n)
    # the assignment of cells to positions rotates with the block so that blocks are not aligned
    cell = [cells[(w + b) % len(cells)] for w, b in zip(within, block)]
    for k in ("d", "z", "t", "s"):
        if k in cells[0]:
            df[k] = np.array([float(c[k]) for c in cell])
    if "d" not in df:
        df["d"] = 0.6 * df["X1"] - 0.4 * df["X2"] + rng.randn(n)
        df["d2"] = 0.3 * df["d"] + 0.5 * df["X2"] + rng.randn(n)
    else:
        df["d2"] = rng.randn(n) + 0.5 * df["X1"]
    df["zc"] = 0.8 * df["d"] + 0.3 * df["X1"] + rng.randn(n)
    df["zc2"] = 0.5 * df["d"] - 0.6 * df["X2"] + rng.randn(n)
    df["zb"] = ((within + block * 2) % 2).astype(float)
    lev = sum(df[k] * w for k, w in (("d", 0.7), ("t", 0.4), ("z", 0.2)) if k in df)
    df["y"] = lev + 0.3 * df["d2"] + df["X1"] - 0.5 * df["X2"] + 0.8 * rng.randn(n)
    if "y" in cells[0]:
        df["y"] = np.array([float(c["y"]) for c in cell])
    df["w"] = 0.5 + rng.rand(n)
    df["block"] = block
    return df


# ------------------------------------------------------------------ roles
class Role:
    def __init__(self, name, learner, target=None, mask=None, extra=(), proba=False, nested=False, clip=False):
        self.name = name
        self.learner = learner
        self.target = target  # fn(df, d_col) -> array or None when the target is estimated
        self.mask = mask  # fn(df) -> bool array or None
        self.extra = list(extra)  # extra covariate columns besides X
        self.proba = proba
        self.nested = nested  # trained on a part of the training set
        self.clip = clip  # stored predictions are truncated


def col(c):
    return lambda df, d: df[c].to_numpy(dtype=float)


def dcol():
    return lambda df, d: df[d].to_numpy(dtype=float)


def eq(**kv):
    def f(df):
        m = np.ones(len(df), dtype=bool)
        for k, v in kv.items():
            m &= df[k].to_numpy() == v
        return m

    return f


class Cfg:
    def __init__(self, name, cls, kind, per_cell, data, args, kw, roles, ext=True, sens=False, linear=True, treats=("d",),
                 nested=False, learners=None, strata=None, tune=True):
        self.name = name
        self.cls = cls
        self.kind = kind
        self.per_cell = per_cell
        self.data_kw = data
        self.args = args
        self.kw = kw
        self.roles = {r.name: r for r in roles}
        self.ext = ext
        self.sens = sens
        self.linear = linear
        self.treats = list(treats)
        self.nested = nested
        self.strata = strata  # columns whose joint levels stratify drawn splits
        self.tune = tune

    def frame(self, seed, blocks=4, per_cell=None, extra_x=0):
        return make_df(self.kind, blocks, per_cell or self.per_cell, seed, extra_x=extra_x)

    def xcols(self, df):
        return [c for c in df.columns if c.startswith("X")]

    def data(self, df, treats=None, use_other=True, **over):
        import doubleml as dml

        kw = dict(self.data_kw)
        kw.update(over)
        treats = list(treats) if treats is not None else list(self.treats)
        if kw.pop("cluster_cols", None) is not None:
            raise AssertionError
        return dml.DoubleMLData(df, "y", treats, x_cols=self.xcols(df), use_other_treat_as_covariate=use_other, **kw)

    def learners(self, lam=1.0):
        out = {}
        for a, (typ, l) in self.args.items():
            out[a] = (lin if typ == "r" else clf)(tag=a, lam=lam * l)
        return out

    def model_cls(self):
        import doubleml as dml

        return self.cls(dml) if not isinstance(self.cls, str) else getattr(dml, self.cls)

    def ctor(self):
        import doubleml as dml

        if "." in self.cls:
            a, b = self.cls.split(".")
            return getattr(getattr(dml, a), b)
        return getattr(dml, self.cls)

    def build(self, df=None, data=None, n_folds=2, n_rep=1, draw=False, learners=None, treats=None, use_other=True, **over):
        if data is None:
            data = self.data(df, treats=treats, use_other=use_other)
        kw = {k: (v(df) if callable(v) and getattr(v, "_df", False) else v) for k, v in self.kw.items()}
        kw.update(over)
        ls = learners or self.learners()
        return self.ctor()(data, **ls, n_folds=n_folds, n_rep=n_rep, draw_sample_splitting=draw, **kw)

    def options(self, df):
        return {k: (v(df) if callable(v) and getattr(v, "_df", False) else v) for k, v in self.kw.items()}

    def x_for(self, df, role, d_col, treats=None, use_other=True):
        """columns the role is fitted on"""
        treats = list(treats) if treats is not None else self.treats
        cols = self.xcols(df) + ([t for t in treats if t != d_col] if use_other else [])
        return cols + [c for c in self.roles[role].extra]


def fromdf(f):
    f._df = True
    return f


R, C = "r", "c"


def plr_callable_score(y, d, l_hat, m_hat, g_hat, smpls):
    v = d - m_hat
    return -v * d, v * (y - g_hat)


def plr_callable_score2(y, d, l_hat, m_hat, g_hat, smpls):
    v = d - m_hat
    return -v * v, v * (y - l_hat)


def pliv_callable_score(y, z, d, l_hat, m_hat, r_hat, g_hat, smpls):
    v = z - m_hat
    return -v * (d - r_hat), v * (y - l_hat)


def irm_callable_score(y, d, g_hat0, g_hat1, m_hat, smpls):
    psi_b = g_hat1 - g_hat0 + d * (y - g_hat1) / m_hat - (1 - d) * (y - g_hat0) / (1 - m_hat)
    return -np.ones_like(psi_b), psi_b


def iivm_callable_score(y, z, d, g_hat0, g_hat1, m_hat, r_hat0, r_hat1, smpls):
    psi_b = g_hat1 - g_hat0 + z * (y - g_hat1) / m_hat - (1 - z) * (y - g_hat0) / (1 - m_hat)
    psi_a = -(r_hat1 - r_hat0 + z * (d - r_hat1) / m_hat - (1 - z) * (d - r_hat0) / (1 - m_hat))
    return psi_a, psi_b


def _iivm_roles(proba=False, at=True, nt=True):
    rs = [
        Role("ml_g0", "ml_g", col("y"), eq(z=0), proba=proba),
        Role("ml_g1", "ml_g", col("y"), eq(z=1), proba=proba),
        Role("ml_m", "ml_m", col("z"), None, proba=True, clip=True),
    ]
    rs.append(Role("ml_r0", "ml_r", col("d"), eq(z=0), proba=True) if at else None)
    rs.append(Role("ml_r1", "ml_r", col("d"), eq(z=1), proba=True) if nt else None)
    return [r for r in rs if r is not None]


def _irm_roles(proba=False):
    return [
        Role("ml_g0", "ml_g", col("y"), eq(d=0), proba=proba),
        Role("ml_g1", "ml_g", col("y"), eq(d=1), proba=proba),
        Role("ml_m", "ml_m", col("d"), None, proba=True, clip=True),
    ]


def _cs_roles(obs, proba=False):
    rs = [Role(f"ml_g_d{a}_t{b}", "ml_g", col("y"), eq(d=a, t=b), proba=proba) for a in (0, 1) for b in (0, 1)]
    if obs:
        rs.append(Role("ml_m", "ml_m", col("d"), None, proba=True, clip=True))
    return rs


def _apo_roles(level, proba=False):
    def treated(df, d):
        return (df["d"].to_numpy() == level).astype(float)

    return [
        Role("ml_g_d_lvl1", "ml_g", col("y"), eq(d=level), proba=proba),
        Role("ml_g_d_lvl0", "ml_g", col("y"), lambda df: df["d"].to_numpy() != level, extra=["d"], proba=proba),
        Role("ml_m", "ml_m", treated, None, proba=True, clip=True),
    ]


@fromdf
def w_arr(df):
    return df["w"].to_numpy().copy()


@fromdf
def w_att(df):
    return (df["X2"].to_numpy() > -0.3).astype(float)


def w_dict(n_rep):
    @fromdf
    def f(df):
        w = df["w"].to_numpy()
        return {"weights": w.copy(), "weights_bar": np.column_stack([w * (1 + 0.1 * k) + 0.05 * k * df["X2"].to_numpy() ** 2
                                                                     for k in range(n_rep)])}

    return f


def catalog(n_rep=1):
    L = []
    add = L.append
    # ---- PLR
    plr = [Role("ml_l", "ml_l", col("y")), Role("ml_m", "ml_m", dcol())]
    plr_iv = plr + [Role("ml_g", "ml_g", None)]
    add(Cfg("PLR-po", "DoubleMLPLR", "cont", 4, {}, dict(ml_l=(R, 1), ml_m=(R, 2)), dict(score="partialling out"), plr, sens=True))
    add(Cfg("PLR-iv", "DoubleMLPLR", "cont", 4, {}, dict(ml_l=(R, 1), ml_m=(R, 2), ml_g=(R, 3)), dict(score="IV-type"), plr_iv,
            sens=True))
    add(Cfg("PLR-bin", "DoubleMLPLR", "bin", 2, {}, dict(ml_l=(R, 1), ml_m=(C, 2)), dict(score="partialling out"),
            [plr[0], Role("ml_m", "ml_m", dcol(), proba=True)], sens=True))
    add(Cfg("PLR-call", "DoubleMLPLR", "cont", 4, {}, dict(ml_l=(R, 1), ml_m=(R, 2), ml_g=(R, 3)),
            dict(score=plr_callable_score), plr_iv))
    add(Cfg("PLR-call2", "DoubleMLPLR", "cont", 4, {}, dict(ml_l=(R, 1), ml_m=(R, 2)), dict(score=plr_callable_score2), plr))
    add(Cfg("PLR-2d", "DoubleMLPLR", "cont", 4, {}, dict(ml_l=(R, 1), ml_m=(R, 2)), dict(score="partialling out"), plr, sens=True,
            treats=("d", "d2")))
    add(Cfg("PLR-iv-2d", "DoubleMLPLR", "cont", 4, {}, dict(ml_l=(R, 1), ml_m=(R, 2), ml_g=(R, 3)), dict(score="IV-type"), plr_iv,
            sens=True, treats=("d", "d2")))
    # ---- PLIV
    pliv = [Role("ml_l", "ml_l", col("y")), Role("ml_m", "ml_m", col("zc")), Role("ml_r", "ml_r", dcol())]
    a3 = dict(ml_l=(R, 1), ml_m=(R, 2), ml_r=(R, 0.5))
    add(Cfg("PLIV-po", "DoubleMLPLIV", "cont", 4, dict(z_cols="zc"), a3, dict(score="partialling out"), pliv))
    add(Cfg("PLIV-iv", "DoubleMLPLIV", "cont", 4, dict(z_cols="zc"), dict(a3, ml_g=(R, 3)), dict(score="IV-type"),
            pliv + [Role("ml_g", "ml_g", None)]))
    add(Cfg("PLIV-call", "DoubleMLPLIV", "cont", 4, dict(z_cols="zc"), a3, dict(score=pliv_callable_score), pliv))
    add(Cfg("PLIV-2z", "DoubleMLPLIV", "cont", 4, dict(z_cols=["zc", "zc2"]), a3, dict(score="partialling out"),
            [pliv[0], Role("ml_m_zc", "ml_m", col("zc")), Role("ml_m_zc2", "ml_m", col("zc2")), pliv[2]]))
    add(Cfg("PLIV-2d", "DoubleMLPLIV", "cont", 4, dict(z_cols="zc"), a3, dict(score="partialling out"), pliv, treats=("d", "d2")))
    add(Cfg("PLIV-pZ", "DoubleMLPLIV._partialZ", "cont", 4, dict(z_cols=["zc", "zc2"]), dict(ml_r=(R, 0.5)), {},
            [Role("ml_r", "ml_r", dcol(), extra=["zc", "zc2"])], ext=False))
    add(Cfg("PLIV-pXZ", "DoubleMLPLIV._partialXZ", "cont", 4, dict(z_cols=["zc", "zc2"]), a3, {},
            [pliv[0], Role("ml_m", "ml_m", dcol(), extra=["zc", "zc2"]), Role("ml_r", "ml_r", None)], ext=False))
    # ---- IRM
    ai = dict(ml_g=(R, 1), ml_m=(C, 2))
    aic = dict(ml_g=(C, 1), ml_m=(C, 2))
    add(Cfg("IRM-ate", "DoubleMLIRM", "bin", 2, {}, ai, dict(score="ATE"), _irm_roles(), sens=True, strata=["d"]))
    add(Cfg("IRM-ate-norm", "DoubleMLIRM", "bin", 2, {}, ai, dict(score="ATE", normalize_ipw=True), _irm_roles(), sens=True,
            strata=["d"]))
    add(Cfg("IRM-atte", "DoubleMLIRM", "bin", 2, {}, ai, dict(score="ATTE"), _irm_roles(), sens=True, strata=["d"]))
    add(Cfg("IRM-atte-norm-t", "DoubleMLIRM", "bin", 2, {}, ai, dict(score="ATTE", normalize_ipw=True, trimming_threshold=0.3),
            _irm_roles(), sens=True, strata=["d"]))
    add(Cfg("IRM-w", "DoubleMLIRM", "bin", 2, {}, ai, dict(score="ATE", weights=w_arr), _irm_roles(), sens=True, strata=["d"]))
    add(Cfg("IRM-wbar", "DoubleMLIRM", "bin", 2, {}, ai, dict(score="ATE", weights=w_dict(n_rep)), _irm_roles(), sens=True,
            strata=["d"]))
    add(Cfg("IRM-atte-w", "DoubleMLIRM", "bin", 4, {}, ai, dict(score="ATTE", weights=w_att), _irm_roles(), sens=True,
            strata=["d"]))
    add(Cfg("IRM-biny", "DoubleMLIRM", "biny", 2, {}, aic, dict(score="ATE", trimming_threshold=0.2), _irm_roles(True), sens=True,
            strata=["d"]))
    add(Cfg("IRM-call", "DoubleMLIRM", "bin", 2, {}, ai, dict(score=irm_callable_score), _irm_roles(), strata=["d"]))
    # ---- IIVM
    av = dict(ml_g=(R, 1), ml_m=(C, 2), ml_r=(C, 0.5))
    avc = dict(ml_g=(C, 1), ml_m=(C, 2), ml_r=(C, 0.5))
    dz = dict(z_cols="z")
    add(Cfg("IIVM", "DoubleMLIIVM", "iv", 2, dz, av, dict(score="LATE"), _iivm_roles(), strata=["d", "z"]))
    add(Cfg("IIVM-norm", "DoubleMLIIVM", "iv", 2, dz, av, dict(score="LATE", normalize_ipw=True), _iivm_roles(), strata=["d", "z"]))
    add(Cfg("IIVM-noAT", "DoubleMLIIVM", "iv", 2, dz, av, dict(subgroups={"always_takers": False, "never_takers": True}),
            _iivm_roles(at=False), strata=["d", "z"]))
    add(Cfg("IIVM-noNT", "DoubleMLIIVM", "iv", 2, dz, av, dict(subgroups={"always_takers": True, "never_takers": False}),
            _iivm_roles(nt=False), strata=["d", "z"]))
    add(Cfg("IIVM-biny", "DoubleMLIIVM", "ivy", 1, dz, avc, dict(trimming_threshold=0.2), _iivm_roles(True), strata=["d", "z"]))
    add(Cfg("IIVM-call", "DoubleMLIIVM", "iv", 2, dz, av, dict(score=iivm_callable_score), _iivm_roles(), strata=["d", "z"]))
    # ---- APO
    add(Cfg("APO-1", "DoubleMLAPO", "lvl", 2, {}, ai, dict(treatment_level=1), _apo_roles(1), sens=True, strata=["d"]))
    add(Cfg("APO-2-norm", "DoubleMLAPO", "lvl", 2, {}, ai, dict(treatment_level=2, normalize_ipw=True), _apo_roles(2), sens=True,
            strata=["d"]))
    add(Cfg("APO-0-w", "DoubleMLAPO", "lvl", 2, {}, ai, dict(treatment_level=0, weights=w_arr), _apo_roles(0), sens=True,
            strata=["d"]))
    add(Cfg("APO-1-wbar", "DoubleMLAPO", "lvl", 2, {}, ai, dict(treatment_level=1, weights=w_dict(n_rep)), _apo_roles(1),
            sens=True, strata=["d"]))
    add(Cfg("APO-1-biny", "DoubleMLAPO", "lvly", 1, {}, aic, dict(treatment_level=1, trimming_threshold=0.25), _apo_roles(1, True),
            sens=True, strata=["d"]))
    # ---- quantile models
    for tr in (0, 1):
        for norm in (True, False):
            add(Cfg(f"PQ-{tr}" + ("" if norm else "-nn"), "DoubleMLPQ", "bin", 4, {}, dict(ml_g=(C, 1), ml_m=(C, 2)),
                    dict(treatment=tr, quantile=0.4 + 0.2 * tr, normalize_ipw=norm),
                    [Role("ml_g", "ml_g", None, eq(d=tr), proba=True, nested=True),
                     Role("ml_m", "ml_m", col("d"), None, proba=True, clip=True)], linear=False, nested=True, strata=["d"]))
    for tr in (0, 1):
        for norm in (True, False):
            add(Cfg(f"LPQ-{tr}" + ("" if norm else "-nn"), "DoubleMLLPQ", "iv", 4, dz, dict(ml_g=(C, 1), ml_m=(C, 2)),
                    dict(treatment=tr, quantile=0.5, normalize_ipw=norm),
                    [Role("ml_m_z", "ml_m", col("z"), None, proba=True),
                     Role("ml_m_d_z0", "ml_m", col("d"), eq(z=0), proba=True),
                     Role("ml_m_d_z1", "ml_m", col("d"), eq(z=1), proba=True),
                     Role("ml_g_du_z0", "ml_g", None, eq(z=0), proba=True, nested=True),
                     Role("ml_g_du_z1", "ml_g", None, eq(z=1), proba=True, nested=True)], linear=False, nested=True,
                    strata=["d", "z"]))
    for tr in (0, 1):
        for norm in (True, False):
            add(Cfg(f"CVaR-{tr}" + ("" if norm else "-nn"), "DoubleMLCVAR", "bin", 4, {}, dict(ml_g=(R, 1), ml_m=(C, 2)),
                    dict(treatment=tr, quantile=0.4 + 0.2 * tr, normalize_ipw=norm),
                    [Role("ml_g", "ml_g", None, eq(d=tr), nested=True),
                     Role("ml_m", "ml_m", col("d"), None, proba=True, clip=True)], ext=False, nested=True, strata=["d"]))
    # ---- SSM
    asx = dict(ml_g=(R, 1), ml_pi=(C, 2), ml_m=(C, 0.5))
    asc = dict(ml_g=(C, 1), ml_pi=(C, 2), ml_m=(C, 0.5))

    def _ssm(proba=False, extra=(), nested=False):
        return [
            Role("ml_g_d0", "ml_g", col("y"), eq(d=0, s=1), proba=proba, nested=nested),
            Role("ml_g_d1", "ml_g", col("y"), eq(d=1, s=1), proba=proba, nested=nested),
            Role("ml_pi", "ml_pi", col("s"), None, extra=["d"] + list(extra), proba=True, nested=nested),
            Role("ml_m", "ml_m", col("d"), None, proba=True, clip=True, nested=nested),
        ]

    for norm in (False, True):
        sfx = "-norm" if norm else ""
        add(Cfg("SSM-mar" + sfx, "DoubleMLSSM", "ssm", 2, dict(s_col="s"), asx, dict(score="missing-at-random", normalize_ipw=norm),
                _ssm(), ext=False, strata=["d", "s"]))
        add(Cfg("SSM-non" + sfx, "DoubleMLSSM", "ssm", 2, dict(s_col="s", z_cols="zc"), asx,
                dict(score="nonignorable", normalize_ipw=norm), _ssm(extra=["zc"], nested=True), ext=False, nested=True,
                strata=["d", "s"]))
    add(Cfg("SSM-mar-biny", "DoubleMLSSM", "ssmy", 1, dict(s_col="s"), asc, dict(score="missing-at-random", trimming_threshold=0.2),
            _ssm(True), ext=False, strata=["d", "s"]))
    add(Cfg("SSM-non-biny", "DoubleMLSSM", "ssmy", 2, dict(s_col="s", z_cols="zc"), asc, dict(score="nonignorable"),
            _ssm(True, extra=["zc"], nested=True), ext=False, nested=True, strata=["d", "s"]))
    # ---- DID
    for score, obs in (("observational", True), ("experimental", False)):
        for nrm in (True, False):
            nm = f"{'obs' if obs else 'exp'}{'' if nrm else '-nn'}"
            add(Cfg(f"DID-{nm}", "DoubleMLDID", "bin", 2, {}, ai if obs else dict(ml_g=(R, 1)),
                    dict(score=score, in_sample_normalization=nrm), _irm_roles()[: 3 if obs else 2], sens=True, strata=["d"]))
            add(Cfg(f"DIDCS-{nm}", "DoubleMLDIDCS", "cs", 2, dict(t_col="t"), ai if obs else dict(ml_g=(R, 1)),
                    dict(score=score, in_sample_normalization=nrm), _cs_roles(obs), sens=True, strata=["d", "t"]))
    add(Cfg("DID-obs-biny", "DoubleMLDID", "biny", 2, {}, aic, dict(score="observational", trimming_threshold=0.2),
            _irm_roles(True), sens=True, strata=["d"]))
    add(Cfg("DIDCS-obs-biny", "DoubleMLDIDCS", "csy", 1, dict(t_col="t"), aic, dict(score="observational"), _cs_roles(True, True),
            sens=True, strata=["d", "t"]))
    return {c.name: c for c in L}


def nonestimated(cfg):
    """nuisance entries that exist in the result containers but are constants (switched-off subgroups)"""
    return {"IIVM-noAT": {"ml_r0": 0.0}, "IIVM-noNT": {"ml_r1": 1.0}}.get(cfg.name, {})


# ------------------------------------------------------------------ splits
def smpls_from_labels(block, labels):
    """labels: fold of each block (restricted growth string)"""
    block = np.asarray(block)
    fold = np.array([labels[b] for b in block])
    n = len(block)
    out = []
    for k in range(max(labels) + 1):
        te = np.where(fold == k)[0]
        tr = np.where(fold != k)[0]
        out.append((tr, te))
    assert sum(len(t) for _, t in out) == n
    return out


def idmap(df):
    return {round(float(v), 10): i for i, v in enumerate(df["X1"])}
