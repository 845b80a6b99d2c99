"""C21 invariances: for every model class, every permutation of the blocks (and single swaps and orders of the rows) together with the splitting, every
relabeling from a table of row indices, column names, column orders, unused columns, storage types and array input, and a grid of affine outcome,
treatment and instrument transformations with learners that are equivariant."""
import contextlib
import itertools
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc.catalog import catalog, make_df, smpls_from_labels
from mc.clusters import cluster_frame, cluster_split
from mc.core import Check, close, scaled_close
from mc.spy import CTL, clf, lin

LABELS = [[0, 1, 0, 1], [0, 0, 1, 1]]


# ------------------------------------------------------------------ internal auxiliary splittings follow the observations
@contextlib.contextmanager
def identity_splits(perm, used):
    """the fixed auxiliary splittings inside some models are positional; here they follow the identity of the rows (position -> original row)"""
    from sklearn.model_selection import train_test_split as tts

    def split(inds, **kw):
        used.append(1)
        o = np.argsort(perm[np.asarray(inds)])
        st = kw.pop("stratify", None)
        return tts(np.asarray(inds)[o], stratify=None if st is None else np.asarray(st)[o], **kw)

    mods = [m for n, m in list(sys.modules.items()) if n.startswith("doubleml") and getattr(m, "train_test_split", None) is tts]
    for m in mods:
        m.train_test_split = split
    try:
        yield
    finally:
        for m in mods:
            m.train_test_split = tts


@contextlib.contextmanager
def steady_search():
    """the searches for a quantile minimise the absolute value of a step function whose steps can tie; rounding the objective makes the choice among
    ties independent of the order of floating point additions"""
    from scipy.optimize import minimize_scalar as ms

    def search(fun, *a, **kw):
        if kw.get("method") != "brent":
            return ms(fun, *a, **kw)
        return ms(lambda t, *b: np.round(fun(t, *b), 9), *a, **kw)

    mods = [m for n, m in list(sys.modules.items()) if n.startswith("doubleml") and getattr(m, "minimize_scalar", None) is ms]
    for m in mods:
        m.minimize_scalar = search
    try:
        yield
    finally:
        for m in mods:
            m.minimize_scalar = ms


# ------------------------------------------------------------------ what is compared
def nums(m, boot=True):
    """every reported number, as arrays; per-observation arrays have the observations first"""
    fw = m.framework
    out = {"all_coef": fw.all_thetas, "all_se": fw.all_ses, "coef": m.coef, "se": m.se, "ci": m.confint().to_numpy(), "t": m.t_stat}
    obs = {"psi": fw.scaled_psi}
    if hasattr(m, "psi"):
        obs["psi_raw"], obs["psi_deriv"] = m.psi, m.psi_deriv
    for i, c in enumerate(components(m)):
        if getattr(c, "predictions", None) is not None:
            for j, k in enumerate(c.predictions):
                obs[f"pred{i}.{j}"] = c.predictions[k]
                obs[f"target{i}.{j}"] = c.nuisance_targets[k]
                out[f"loss{i}.{j}"] = np.asarray(c.nuisance_loss[k], dtype=float)
    se = fw.sensitivity_elements
    if se is not None:
        for k in ("max_bias",):
            out[f"sens.{k}"] = se[k]
        obs["sens.psi_max_bias"] = se["psi_max_bias"]
    if boot:
        np.random.seed(7)
        m.bootstrap(n_rep_boot=3)
        out["boot"] = m.boot_t_stat
        out["joint"] = m.confint(joint=True).to_numpy()
    return {k: np.array(v, dtype=float) for k, v in out.items() if v is not None}, {k: np.array(v, dtype=float) for k, v in obs.items() if v is not None}


def components(m):
    if hasattr(m, "modellist"):
        return m.modellist
    if hasattr(m, "modellist_0"):
        return list(m.modellist_0) + list(m.modellist_1)
    return [m]


def compare(rec, key, what, a, b, perm=None, rtol=1e-6):
    """b is the transformed run; perm maps its rows to those of a"""
    (na, oa), (nb, ob) = a, b
    if set(na) != set(nb) or set(oa) != set(ob):
        rec.fail(f"{key}:keys", f"{what}: reports {sorted(set(na) ^ set(nb) | set(oa) ^ set(ob))} differ")
        return False
    for k in na:
        if na[k].shape != nb[k].shape or not scaled_close(na[k], nb[k], rtol=rtol):
            rec.fail(f"{key}:{k}", f"{what}: {k} is {nb[k].tolist()}, was {na[k].tolist()}")
            return False
    for k in oa:
        x = oa[k] if perm is None else oa[k][perm]
        if x.shape != ob[k].shape or not scaled_close(x, ob[k], rtol=rtol):
            rec.fail(f"{key}:{k}", f"{what}: {k} does not follow the observations")
            return False
    return True


# ------------------------------------------------------------------ subjects
class Subject:
    """one model class on an arbitrary frame with role names"""

    def __init__(self, name, seed):
        self.name = name
        self.comp = name.startswith(("APOS", "QTE"))
        self.cl = name.startswith("CL")
        if self.comp:
            kind = "lvl" if name == "APOS" else ("iv" if "LPQ" in name else "bin")
            self.df = make_df(kind, 4, 2 if name == "APOS" else 4, seed)
            self.cfg = None
            self.treats, self.data_kw = ["d"], ({"z_cols": "z"} if "LPQ" in name else {})
        else:
            base = name.split(":")[1] if self.cl else name
            self.cfg = catalog(2)[base]
            self.ways = int(name[2]) if self.cl else 0
            self.df = cluster_frame(self.cfg, seed, ways=self.ways, layout="uneven" if self.ways == 1 else "even", per_cell=max(self.cfg.per_cell, 4 if self.ways == 1 else 8)) if self.cl else self.cfg.frame(seed)
            self.treats, self.data_kw = list(self.cfg.treats), dict(self.cfg.data_kw)
            if self.cl:
                self.data_kw["cluster_cols"] = ["c1", "c2"][: self.ways]
        self.nested = self.comp and name != "APOS" or bool(self.cfg is not None and self.cfg.nested)

    def xcols(self):
        return [c for c in self.df.columns if c.startswith("X")]

    def splits(self, df):
        if not self.cl:
            return [[smpls_from_labels(df["block"], l) for l in LABELS]]
        k2 = len(np.unique(df["c2"]))
        lab = [[[0, 1, 0, 1]], [[0, 0, 1, 1]]]
        if self.ways == 2:
            lab = [l + [[i % 2 for i in range(k2)]] for l in lab]
        sp = [cluster_split(df, ["c1", "c2"][: self.ways], l) for l in lab]
        return [[s[0] for s in sp], [s[1] for s in sp]]

    def data(self, df, names=None, x=None):
        import doubleml as dml

        nm = (lambda c: c) if names is None else (lambda c: names[c])
        kw = {}
        for k, v in self.data_kw.items():
            kw[k] = [nm(c) for c in v] if isinstance(v, list) else nm(v)
        cls = dml.DoubleMLClusterData if self.cl else dml.DoubleMLData
        return cls(df, nm("y"), [nm(t) for t in self.treats], x_cols=[nm(c) for c in (x or self.xcols())], **kw)

    def model(self, data, odf, splits):
        """odf: the frame options such as weights are taken from"""
        import doubleml as dml

        if self.cfg is not None:
            m = self.cfg.build(odf, data=data, n_folds=2, n_rep=2)
        elif self.name == "APOS":
            m = dml.DoubleMLAPOS(data, ml_g=lin("ml_g", 1.0), ml_m=clf("ml_m", 2.0), treatment_levels=[2, 0, 1], n_folds=2, n_rep=2, draw_sample_splitting=False)
        else:
            sc = self.name.split("-")[1]
            m = dml.DoubleMLQTE(data, ml_g=lin("ml_g", 1.0) if sc == "CVaR" else clf("ml_g", 1.0), ml_m=clf("ml_m", 2.0), quantiles=[0.4, 0.6], score=sc, n_folds=2,
                                n_rep=2, draw_sample_splitting=False)
        m.set_sample_splitting(*splits)
        m.fit()
        return m


# ------------------------------------------------------------------ permutations
def perms(df, thor):
    n = len(df)
    b = df["block"].to_numpy()
    base = np.arange(n)
    out = []
    rank = np.zeros(n, int)
    for k in range(4):
        ix = np.where(b == k)[0]
        rank[ix] = np.arange(len(ix))
    for p in itertools.permutations(range(4)):
        # rows of block p[k] take the places of block k where both have one, the rest keep their order
        out.append((f"blocks {p}", np.lexsort((np.argsort(np.array(p))[b], rank))))
        if thor:
            out.append((f"sorted by block {p}", np.lexsort((rank, np.argsort(np.array(p))[b]))))
    out.append(("reversed", base[::-1].copy()))
    out.append(("by outcome", np.argsort(df["y"].to_numpy(), kind="stable")))
    out.append(("by treatment", np.argsort(df["d"].to_numpy(), kind="stable")))
    out += [(f"rotated by {k}", np.roll(base, k)) for k in ((1, n // 2) if not thor else range(1, n))]
    for i in range(0, n - 1, 7 if not thor else 1):
        q = base.copy()
        q[[i, i + 1]] = q[[i + 1, i]]
        out.append((f"rows {i}, {i + 1} swapped", q))
    return out


def perm_case(case, rec):
    S = Subject(case["name_"], case["seed"])
    CTL.reset(None, log=False)
    df = S.df
    used = []
    with identity_splits(np.arange(len(df)), used):
        a = nums(S.model(S.data(df), df, S.splits(df)), boot=False)
    if S.nested and not used:
        rec.outcome("the auxiliary splitting cannot be controlled")
        rec.step()
        return
    for nm, p in perms(df, case["thor"]):
        d2 = df.iloc[p].reset_index(drop=True)
        inv = np.argsort(p)
        sp = S.splits(df)
        mapped = [[[(np.sort(inv[tr]), np.sort(inv[te])) for tr, te in rep] for rep in sp[0]]] + sp[1:]
        with identity_splits(p, used):
            b = nums(S.model(S.data(d2), d2, mapped), boot=False)
        rec.step()
        rec.trace()
        rec.state("perm", S.name, nm)
        if not compare(rec, f"perm:{S.name}", f"rows {nm}", a, b, perm=p):
            return
    rec.outcome(f"perm {S.name}")


# ------------------------------------------------------------------ labels and storage
WEIRD = {"y": "outcome value", "d": "0", "d2": "d2?", "X1": "x[1]", "X2": "Y", "zc": "z-1", "zc2": "z 2", "z": "instrument\u00e9", "t": "Time", "s": "S", "c1": "firm", "c2": "year"}
SWAPPED = {"y": "X1", "d": "y", "d2": "d", "X1": "d2", "X2": "z", "zc": "X2", "zc2": "s", "z": "t", "t": "zc", "s": "c1", "c1": "c2", "c2": "zc2"}


INTERNAL = {"y": "psi_b", "d": "ml_m", "d2": "all", "X1": "ml_g", "X2": "ml_l", "zc": "ml_r", "zc2": "ml_m_x", "z": "ml_g0", "t": "time", "s": "ml_pi", "c1": "cluster_vars", "c2": "ml_l_1"}


def variants(S, thor):
    """(name, frame, names, x order)"""
    import pandas as pd

    df = S.df
    n = len(df)
    idx = {"reversed": np.arange(n)[::-1], "strings": [f"r{i}" for i in np.random.RandomState(0).permutation(n)], "duplicates": [i // 3 for i in range(n)],
           "constant": [0] * n, "dates": pd.date_range("2020-01-01", periods=n, freq="D")[::-1], "floats": np.linspace(3, -3, n), "shifted": np.arange(5, 5 + n),
           "shuffled": np.random.RandomState(1).permutation(n), "multi": pd.MultiIndex.from_arrays([[i % 2 for i in range(n)], [i % 5 for i in range(n)]])}
    for k, v in idx.items():
        d = df.copy()
        d.index = v
        yield f"index {k}", d, None, None
    yield "columns reversed", df[df.columns[::-1]], None, None
    yield "columns sorted", df[sorted(df.columns)], None, None
    for nm, mp in (("renamed", WEIRD), ("names exchanged", SWAPPED), ("named like nuisance functions", INTERNAL)):
        d = df.rename(columns={c: mp[c] if c in mp else f"unused_{c}" for c in df.columns})
        yield nm, d, mp, None
    d = df.copy()
    d.insert(0, "junk_nan", np.nan)
    d.insert(2, "junk_str", "text")
    d["junk_inf"] = np.inf
    d["junk_cat"] = pd.Categorical(["a", "b"] * (n // 2) + ["a"] * (n % 2))
    yield "unused columns", d, None, None
    used = ["y"] + S.treats + S.xcols() + [c for v in S.data_kw.values() for c in (v if isinstance(v, list) else [v])]
    yield "used columns only", df[used].copy(), None, None
    yield "covariates reversed", df, None, S.xcols()[::-1]
    flags = [c for c in used if set(np.unique(df[c])) <= {0.0, 1.0, 2.0}]
    for tp in ("int64", "int8", "uint8", "float32", "bool", "object"):
        d = df.copy()
        cc = [c for c in flags if tp != "bool" or set(np.unique(d[c])) <= {0.0, 1.0}]
        if tp == "object" or not cc:
            continue
        for c in cc:
            d[c] = d[c].astype(tp)
        yield f"indicators as {tp}", d, None, None
    d = pd.DataFrame(np.asfortranarray(df.to_numpy(float)), columns=df.columns)
    yield "one block", d, None, None
    d = pd.DataFrame(np.ascontiguousarray(np.repeat(df.to_numpy(float), 2, axis=0))[::2], columns=df.columns)
    yield "strided", d, None, None
    ro = df.to_numpy(float).copy()
    ro.setflags(write=False)
    yield "read only", pd.DataFrame(ro, columns=df.columns, copy=False), None, None


def label_case(case, rec):
    import doubleml as dml

    S = Subject(case["name_"], case["seed"])
    CTL.reset(None, log=False)
    df = S.df
    sp = S.splits(df)
    a = nums(S.model(S.data(df), df, sp), boot=not S.cl)
    for nm, d, names, x in variants(S, case["thor"]):
        rec.step()
        rec.trace()
        rec.state("label", S.name, nm)
        keep = d.copy()
        b = nums(S.model(S.data(d, names, x), df, sp), boot=not S.cl)
        if not compare(rec, f"label:{S.name}", nm, a, b):
            return
        if not (list(keep.columns) == list(d.columns) and keep.index.equals(d.index) and all(keep[c].equals(d[c]) for c in d.columns)):
            rec.fail(f"label:{S.name}:frame", f"{nm}: the frame of the user was modified")
            return
    # cluster identifiers are names
    if S.cl:
        for nm, f in (("scaled", lambda v: v * 10 + 3), ("reordered", lambda v: -v), ("integers", lambda v: v.astype(int)), ("mixed up", lambda v: (v * 7 + 100) % 13)):
            d = df.copy()
            mp = {}
            for c in S.data_kw["cluster_cols"]:
                d[c] = f(df[c])
                mp[c] = f
            if any(len(np.unique(d[c])) != len(np.unique(df[c])) for c in mp):
                continue
            sc = [[([mp[c](v) for c, v in zip(S.data_kw["cluster_cols"], tr)], [mp[c](v) for c, v in zip(S.data_kw["cluster_cols"], te)]) for tr, te in rep] for rep in sp[1]]
            b = nums(S.model(S.data(d), d, [sp[0], sc]), boot=False)
            rec.step()
            rec.trace()
            rec.state("cluster ids", S.name, nm)
            if not compare(rec, f"cluster-ids:{S.name}", f"cluster identifiers {nm}", a, b):
                return
    # arrays instead of a frame
    g = lambda k: None if k not in S.data_kw else df[S.data_kw[k]].to_numpy()
    for order, dim in itertools.product("CF", ("1d", "2d")):
        arr = lambda v: None if v is None else np.array(v if dim == "1d" or v.ndim == 2 else v.reshape(-1, 1), order=order)
        dd = df[S.treats].to_numpy()
        kw = dict(x=np.array(df[S.xcols()].to_numpy(), order=order), y=arr(df["y"].to_numpy()) if dim == "1d" else df["y"].to_numpy(),
                  d=arr(dd[:, 0] if dd.shape[1] == 1 else dd))
        z = g("z_cols")
        if z is not None:
            kw["z"] = arr(z[:, 0] if z.ndim == 2 and z.shape[1] == 1 else z)
        for r in ("t", "s"):
            if f"{r}_col" in S.data_kw:
                kw[r] = g(f"{r}_col")
        if S.cl:
            cv = g("cluster_cols")
            kw["cluster_vars"] = arr(cv[:, 0] if cv.shape[1] == 1 else cv)
            data = dml.DoubleMLClusterData.from_arrays(**kw)
        else:
            data = dml.DoubleMLData.from_arrays(**kw)
        b = nums(S.model(data, df, sp), boot=not S.cl)
        rec.step()
        rec.trace()
        rec.state("arrays", S.name, order, dim)
        if not compare(rec, f"arrays:{S.name}", f"arrays, order {order}, {dim}", a, b):
            return
    rec.outcome(f"label {S.name}")


# ------------------------------------------------------------------ the same values stored in other types
def types_case(case, rec):
    """values that every storage type can hold: the outcome, continuous treatments and instruments and the covariates are small non-negative integers"""
    S = Subject(case["name_"], case["seed"])
    CTL.reset(None, log=False)
    df = S.df.copy()
    roles = {"y": ["y"], "d": S.treats, "z": [], "x": S.xcols()}
    for k, v in S.data_kw.items():
        if k != "cluster_cols":
            roles["z"] += v if isinstance(v, list) else [v]
    for cols in roles.values():
        for c in cols:
            if not set(np.unique(df[c])) <= {0.0, 1.0, 2.0}:
                v = np.round(4 * df[c].to_numpy())
                df[c] = v - v.min()
    S.df = df
    sp = S.splits(df)
    a = nums(S.model(S.data(df), df, sp), boot=False)
    for tp in case["types"]:
        if tp == "float32" and S.name.startswith(("PQ", "LPQ", "CVaR", "QTE")):
            continue  # sums in single precision decide between the steps of the searched function
        for pick in ("y", "d", "z", "x", "all"):
            cols = [c for r, v in roles.items() for c in v if pick in (r, "all")]
            cols = [c for c in cols if tp != "bool" or set(np.unique(df[c])) <= {0.0, 1.0}]
            if not cols or df[cols].to_numpy().max() > 127 and tp == "int8":
                continue
            d = df.copy()
            for c in cols:
                d[c] = d[c].astype(tp)
            b = nums(S.model(S.data(d), df, sp), boot=False)
            rec.step()
            rec.trace()
            rec.state("types", S.name, tp, pick)
            if not compare(rec, f"types:{S.name}", f"{pick} ({cols}) stored as {tp}", a, b, rtol=case["rtol"].get(tp, 1e-6)):
                return
    rec.outcome(f"types {S.name}")


# ------------------------------------------------------------------ affine transformations
def affine_kinds(S):
    """which transformations have a known effect: (roles that may be transformed, contrast: shifts of the outcome cancel, sign may flip)"""
    n = S.name.split(":")[-1]
    biny = "biny" in n
    if biny:
        return None
    if n.startswith("PLR"):
        return dict(y=True, d=n not in ("PLR-bin",) and "2d" not in n, z=False, shift0=True, neg=True)
    if n.startswith("PLIV"):
        return dict(y=True, d="2d" not in n, z=n not in ("PLIV-pZ", "PLIV-pXZ"), shift0=True, neg=True, noshift=n == "PLIV-pZ")
    if n.startswith(("IRM", "IIVM", "DID", "SSM")):
        return dict(y=True, d=False, z=False, shift0=True, neg=True)
    if n.startswith("APO"):
        return dict(y=True, d=False, z=False, shift0=False, neg=True, noshift=n in ("APO-0-w", "APO-1-wbar"))
    if n.startswith(("PQ", "LPQ", "CVaR", "QTE")):
        # these are found by a numerical search on a step function: only an exact change of units keeps every comparison
        return dict(y=True, d=False, z=False, shift0=True, neg=False, exact=True)
    raise AssertionError(n)


def affine_case(case, rec):
    S = Subject(case["name_"], case["seed"])
    CTL.reset(None, log=False)
    k = affine_kinds(S)
    if k is None:
        return
    df = S.df
    sp = S.splits(df)
    sens = S.cfg is not None and S.cfg.sens or S.name == "APOS"

    def run(d):
        m = S.model(S.data(d), d, sp)
        out = nums(m, boot=not S.cl)
        sv = None
        if sens:
            m.sensitivity_analysis(cf_y=0.1, cf_d=0.05, rho=0.7)
            p = m.sensitivity_params
            sv = {"lower": p["theta"]["lower"], "upper": p["theta"]["upper"], "rv": p["rv"]}
        return out, sv

    (na, oa), sa = run(df)
    for (a, b), (e, ez) in itertools.product(case["y"], case["dz"]):
        if (e != 1 and not k["d"]) or (ez != 1 and not k["z"]) or (b < 0 and not k["neg"]) or (a and k.get("noshift")) or (k.get("exact") and (a or b not in (2.0, 0.5, 0.25, 1024.0))):
            continue
        d = df.copy()
        d["y"] = a + b * d["y"]
        if e != 1:
            # with the IV-type score the origin of the treatment matters
            d["d"] = (0.0 if S.name.endswith(("PLR-iv", "PLR-call", "PLIV-iv", "PLIV-pZ")) else 2.0) + e * d["d"]
        if ez != 1:
            for i, c in enumerate(x for x in (S.data_kw["z_cols"] if isinstance(S.data_kw["z_cols"], list) else [S.data_kw["z_cols"]])):
                d[c] = -1.0 + ez * (1 + i) * d[c]
        (nb, ob), sb = run(d)
        f = b / e
        sh = 0.0 if k["shift0"] else a
        what = f"y -> {a} + {b} y, d -> {e} d, z -> {ez} z"
        rec.step()
        rec.trace()
        rec.state("affine", S.name, a, b, e, ez)
        rt = 1e-4 if S.name.startswith(("PQ", "LPQ", "CVaR", "QTE")) else 1e-6
        want = {"all_coef": sh + f * na["all_coef"], "coef": sh + f * na["coef"], "all_se": abs(f) * na["all_se"], "se": abs(f) * na["se"], "ci": sh + f * (na["ci"] if f > 0 else na["ci"][:, ::-1])}
        if "boot" in na:
            want["boot"] = np.sign(f) * na["boot"]
            want["joint"] = sh + f * (na["joint"] if f > 0 else na["joint"][:, ::-1])
        if sh == 0:
            want["t"] = np.sign(f) * na["t"]
        scale = np.abs(f) * np.max(np.abs(na["all_se"]))
        for q, v in want.items():
            tol = rt * (scale + np.abs(v) * (1e-2 if rt > 1e-5 else 1)) if q not in ("boot", "t") else rt * (1 + np.abs(v))
            if nb[q].shape != v.shape or not np.all(np.abs(nb[q] - v) <= tol * 10):
                rec.fail(f"affine:{S.name}:{q}", f"{what}: {q} is {nb[q].tolist()}, expected {v.tolist()}")
                return
        if not scaled_close(ob["psi"], f * oa["psi"], rtol=max(rt, 1e-5)):
            rec.fail(f"affine:{S.name}:psi", f"{what}: the scaled scores do not transform")
            return
        if sens:
            lo, up = (sa["lower"], sa["upper"]) if f > 0 else (sa["upper"], sa["lower"])
            if not (scaled_close(sb["lower"], sh + f * lo, rtol=1e-5) and scaled_close(sb["upper"], sh + f * up, rtol=1e-5)):
                rec.fail(f"affine:{S.name}:bounds", f"{what}: the sensitivity bounds are {sb}, before {sa}")
                return
            if sh == 0 and not np.all(np.abs(sb["rv"] - sa["rv"]) < 2e-3):
                rec.fail(f"affine:{S.name}:rv", f"{what}: the robustness value changes from {sa['rv']} to {sb['rv']}")
                return
    rec.outcome(f"affine {S.name}")


def case_fn(case, rec):
    import doubleml  # noqa: F401

    with warnings.catch_warnings(), steady_search():
        warnings.simplefilter("ignore")
        {"types": types_case, "perm": perm_case, "label": label_case, "affine": affine_case}[case["kind"]](case, rec)


def cases(tier, seed):
    thor = tier == "thorough"
    names = list(catalog(2)) + ["APOS", "QTE-PQ", "QTE-LPQ", "QTE-CVaR"]
    cl = [f"CL{w}:{b}" for w in (1, 2) for b in ("PLR-po", "PLR-iv", "PLIV-po", "IRM-ate", "IRM-atte", "IIVM", "APO-1", "DID-obs")]
    for s in [seed] if not thor else [seed, seed + 3, seed + 5]:
        for nm in names + cl:
            yield dict(kind="perm", name="perm", name_=nm, thor=thor, seed=s)
            yield dict(kind="label", name="label", name_=nm, thor=thor, seed=s)
            yield dict(kind="types", name="types", name_=nm, seed=s, types=["int64", "int8", "uint8", "float32", "bool"] + (["int16", "int32", "uint16", "uint32", "uint64"] if thor else []),
                       rtol={"float32": 1e-4})
            if "biny" not in nm:
                yield dict(kind="affine", name="affine", name_=nm, seed=s, y=[(0, 1), (3.0, 1), (0, 2.0), (0, 0.25), (0, 2.5), (-10.0, 0.1), (1.0, -2.0)] + ([(100.0, 1), (0, 1e3), (0, 1e-3), (5.0, -30.0)] if thor else []),
                           dz=[(1, 1), (0.5, 1), (-3.0, 1), (1, 4.0), (2.0, -0.5)])


if __name__ == "__main__":
    Check("C21", case_fn, cases, rule="all model classes and score/option combinations, clustered (one- and two-way) and composite models: all 24 permutations of the four blocks, "
          "row swaps, rotations and sortings together with the splitting; a table of row indices, column names and orders, unused columns, storage types and array layouts; a grid "
          "of affine transformations of outcome, treatment and instruments",
          assumptions=["learners are deterministic and equivariant", "fixed auxiliary splittings inside the quantile and nonignorable selection models follow the observations"]).main()
