"""C19 group and conditional effects and policy trees: all group assignments and small integer bases of small signals on the projection
itself, all block-wise group assignments (disjoint, partial, overlapping; boolean, integer, label columns) on fitted models."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import pandas as pd
from scipy.stats import norm, t as tdist

from mc.catalog import catalog, smpls_from_labels
from mc.core import Check, close, scaled_close
from mc.refscores import ref_linear
from mc.spy import CTL

COV = ("nonrobust", "HC0", "HC1", "HC2", "HC3")


# ------------------------------------------------------------------ reference
def ref_proj(s, X, cov="HC0"):
    n, k = X.shape
    A = np.linalg.inv(X.T @ X)
    b = A @ (X.T @ s)
    e = s - X @ b
    if cov == "nonrobust":
        return b, A * (e @ e) / (n - k) if n > k else np.full((k, k), np.nan)
    h = np.einsum("ij,jk,ik->i", X, A, X)
    with np.errstate(all="ignore"):
        u = {"HC0": e ** 2, "HC1": e ** 2 * n / (n - k) if n > k else e * np.nan, "HC2": e ** 2 / (1 - h), "HC3": (e / (1 - h)) ** 2}[cov]
    return b, A @ (X.T @ (u[:, None] * X)) @ A


def full_rank(X):
    return X.shape[0] > X.shape[1] and np.linalg.matrix_rank(X) == X.shape[1]


def se_of(om):
    return np.sqrt(np.maximum(np.diag(om), 0))


def check_fit(rec, key, m, s, X, names, what, cov="HC0"):
    b, om = ref_proj(s, X, cov)
    sc = max(np.abs(s).max(), 1e-12)
    ok = rec.expect(np.allclose(np.asarray(m.blp_model.params, float), b, rtol=1e-7, atol=1e-9 * sc), f"{key}:coef", f"{what}: coefficients {np.asarray(m.blp_model.params)}, projection {b}")
    ok = ok and rec.expect(np.allclose(np.asarray(m.blp_omega), om, rtol=1e-6, atol=1e-10 * sc * sc, equal_nan=True), f"{key}:cov", f"{what}: covariance {np.asarray(m.blp_omega).tolist()}, {cov} covariance of the projection {om.tolist()}")
    ok = ok and rec.expect(list(m.basis.columns) == list(names), f"{key}:names", f"{what}: columns {list(m.basis.columns)}, expected {list(names)}")
    return (b, om) if ok else None


def check_summary(rec, key, m, b, om, n, use_t, what):
    sm = m.summary
    se = se_of(om)
    q = (lambda p: tdist.ppf(p, n - len(b))) if use_t else norm.ppf
    sf = (lambda v: 2 * tdist.sf(np.abs(v), n - len(b))) if use_t else (lambda v: 2 * norm.sf(np.abs(v)))
    with np.errstate(all="ignore"):
        want = {"coef": b, "std err": se, "t": b / se, "P>|t|": sf(b / se), "[0.025": b - q(0.975) * se, "0.975]": b + q(0.975) * se}
    for c, w in want.items():
        if c in ("t", "P>|t|") and (se < 1e-9 * max(1.0, np.abs(b).max())).any():
            continue
        rec.expect(np.allclose(sm[c].to_numpy(float), w, rtol=1e-5, atol=1e-9), f"{key}:summary:{c}", f"{what}: {c} is {sm[c].to_numpy(float)}, expected {w}")


def check_point(rec, key, ci, eff, se, level, what, index=None):
    z = norm.ppf(1 - (1 - level) / 2)
    v = ci.to_numpy(dtype=float)
    want = np.column_stack((eff - z * se, eff, eff + z * se))
    ok = rec.expect(v.shape == want.shape and np.allclose(v, want, rtol=1e-6, atol=1e-8), f"{key}:pointwise", f"{what}, level {level}: {v[:2].tolist()}, expected {want[:2].tolist()}")
    a = (1 - level) / 2
    rec.expect(list(ci.columns) == ["{:.1f} %".format(a * 100), "effect", "{:.1f} %".format((1 - a) * 100)], f"{key}:labels", f"{what}: {list(ci.columns)}")
    if index is not None:
        rec.expect(list(ci.index) == list(index), f"{key}:index", f"{what}: rows {list(ci.index)}, expected {list(index)}")
    return ok


def check_joint(rec, key, m, basis, B, om, eff, se, level, n_boot, what):
    """one critical value for all points, the level-quantile over bootstrap draws of the largest |t| over points"""
    st = np.random.get_state()
    np.random.seed(11)
    ci = m.confint(basis, joint=True, level=level, n_rep_boot=n_boot) if basis is not None else m.confint(joint=True, level=level, n_rep_boot=n_boot)
    np.random.seed(11)
    Z = np.random.normal(size=[om.shape[0], n_boot])
    np.random.set_state(st)
    v = ci.to_numpy(dtype=float)
    if not rec.expect(np.allclose(v[:, 1], eff, rtol=1e-7, atol=1e-9) and v.shape == (len(eff), 3), f"{key}:joint-effect", f"{what}"):
        return
    good = se > 1e-9
    c_lo, c_hi = (eff - v[:, 0])[good] / se[good], (v[:, 2] - eff)[good] / se[good]
    if not good.any():
        return
    c = c_lo[0]
    if not rec.expect(np.allclose(np.r_[c_lo, c_hi], c, rtol=1e-6), f"{key}:joint-shape", f"{what}: the band is not effect +- one critical value times the error ({c_lo}, {c_hi})"):
        return
    w, V = np.linalg.eigh(om)
    R = V @ np.diag(np.sqrt(np.maximum(w, 0))) @ V.T
    T = np.abs(B @ R @ Z)[good] / se[good][:, None]
    proper, pinned = np.quantile(T.max(axis=0), level), np.quantile(T.max(axis=1), level)
    z = norm.ppf(1 - (1 - level) / 2)
    if np.isclose(c, proper, rtol=1e-5):
        rec.note("joint-proper")
    elif np.isclose(c, pinned, rtol=1e-5):
        rec.fail("joint-band-max-over-draws", f"{what}, level {level}: critical value {c:.4f} is the quantile over points of the largest draw, the simultaneous one is {proper:.4f}")
    else:
        # another stream of draws: compare with the distribution
        np.random.seed(12)
        T2 = np.abs(B @ R @ np.random.normal(size=[om.shape[0], 20000]))[good] / se[good][:, None]
        np.random.set_state(st)
        M = np.sort(T2.max(axis=0))
        d = 4.5 * np.sqrt(level * (1 - level) / n_boot)
        lo, hi = np.quantile(M, max(0, level - d)), np.quantile(M, min(1, level + d))
        rec.expect(lo <= c <= hi, f"{key}:joint-critical", f"{what}, level {level}: critical value {c:.4f}, the simultaneous one is {proper:.4f}")
    rec.expect(c >= z * 0.6 if n_boot < 2000 else c >= z * 0.97, f"{key}:joint-narrow", f"{what}, level {level}: simultaneous critical value {c:.4f} below the pointwise {z:.4f}")


def check_coefci(rec, key, m, b, om, n, use_t, level, what, joint=False):
    q = (lambda p: tdist.ppf(p, n - len(b))) if use_t else norm.ppf
    se = se_of(om)
    ci = m.confint(level=level, joint=joint)
    a = 1 - level
    v = ci.to_numpy(dtype=float)

    def band(al):
        return np.column_stack((b - q(1 - al / 2) * se, b, b + q(1 - al / 2) * se))

    rec.expect(list(ci.index) == list(m.basis.columns) and list(ci.columns) == ["{:.1f} %".format(a / 2 * 100), "effect", "{:.1f} %".format((1 - a / 2) * 100)], f"{key}:coef-labels", what)
    if np.allclose(v, band(a), rtol=1e-6, atol=1e-9):
        return
    if np.allclose(v, band(a / 2), rtol=1e-6, atol=1e-9):
        rec.fail("coefficient-interval-level", f"{what}: the {level} interval of the basis coefficients has the quantiles of level {1 - a / 2}")
    else:
        rec.fail(f"{key}:coef-ci", f"{what}, level {level}: {v.tolist()}, expected {band(a).tolist()}")


# ------------------------------------------------------------------ the projection itself
SIGNALS = [np.array([1.0, -2.0, 0.5, 3.0, 0.0, -1.0, 2.0, 4.0]), np.array([0.0, 0.0, 1.0, 1.0, -1.0, 2.0, 2.0, -3.0]), np.array([1e3, 2e3, -5e2, 3e3, 7.0, 1e3, 0.0, 2e3])]


def assign_case(case, rec):
    """every assignment of n observations to up to three groups (or none)"""
    import doubleml as dml

    n, first = case["n"], case["first"]
    s = SIGNALS[case["sig"]][:n]
    idx = [f"i{j}" for j in range(n)] if case["sig"] else list(range(n))
    for tail in itertools.product(range(4), repeat=n - len(first)):
        lab = np.array(list(first) + list(tail))
        gs = sorted(set(lab[lab > 0]))
        if not gs or gs != list(range(1, len(gs) + 1)) or not len(gs) < n:
            continue
        G = np.column_stack([lab == g for g in gs])
        df = pd.DataFrame(G, columns=[f"g{g}" for g in gs], index=idx)
        what = f"groups {lab.tolist()}"
        m = dml.DoubleMLBLP(s, df, is_gate=True).fit()
        rec.trace()
        rec.state(n, case["sig"], lab.tolist())
        r = check_fit(rec, "group", m, s, G.astype(float), df.columns, what)
        if r is None:
            return
        b, om = r
        rec.expect(np.allclose(b, [s[lab == g].mean() for g in gs]), "group:mean", what)
        rec.outcome(np.round(b, 6).tolist(), np.round(om, 6).tolist())
        if lab[:3].tolist() in ([0, 1, 2], [1, 2, 1], [1, 1, 2]):
            lv = (0.5, 0.9, 0.95, 0.99)[sum(tail) % 4]
            check_point(rec, "group", m.confint(level=lv), b, se_of(om), lv, what, index=df.columns)
            check_summary(rec, "group", m, b, om, n, False, what)
            rec.step()


def basis_case(case, rec):
    """small integer bases with an intercept, one or two more columns; every covariance type, evaluated on the basis and elsewhere"""
    import doubleml as dml

    n = 6
    for c1 in itertools.product((-1, 0, 2), repeat=n - 2):
        x1 = np.array([case["a"], case["b"]] + list(c1), dtype=float)
        for extra in case["extra"]:
            s = SIGNALS[0][:n] + 0.1 * x1
            cols = [np.ones(n), x1] + ([x1 ** 2 + np.arange(n)] if extra else [])
            X = np.column_stack(cols)
            if not full_rank(X):
                continue
            k = sum(int(3 * v + 3) for v in x1) % 5
            cov = COV[k]
            use_t = bool(k % 2)
            names = ["const", "x", "x2"][: X.shape[1]] if k != 2 else list(range(X.shape[1]))
            df = pd.DataFrame(X, columns=names)
            what = f"basis {x1.astype(int).tolist()} {'quadratic ' if extra else ''}{cov}"
            m = dml.DoubleMLBLP(s, df)
            try:
                m.confint()
                rec.fail("basis:unfitted", "interval before a fit")
            except ValueError:
                pass
            kw = dict(cov_type=cov, use_t=use_t)
            if cov == "HC0" and not use_t:
                kw = {}
            m.fit(**kw)
            rec.trace()
            rec.state("basis", x1.tolist(), extra, cov)
            h = np.einsum("ij,jk,ik->i", X, np.linalg.inv(X.T @ X), X)
            if cov in ("HC2", "HC3") and (h > 1 - 1e-9).any():
                continue
            r = check_fit(rec, "basis", m, s, X, names, what, cov)
            if r is None:
                return
            b, om = r
            check_summary(rec, "basis", m, b, om, n, use_t, what)
            rec.outcome(np.round(b, 6).tolist(), np.round(om, 6).tolist())
            for lv in (0.9, 0.95) if extra else (0.5, 0.99):
                check_coefci(rec, "basis", m, b, om, n, use_t, lv, what, joint=bool(extra))
                for grid in (X, X[[2]], np.column_stack([np.ones(3)] + [np.array([-2.0, 0.5, 1.0]) * (j + 1) for j in range(X.shape[1] - 1)])):
                    rec.step()
                    g = pd.DataFrame(grid, columns=names, index=[f"p{j}" for j in range(len(grid))])
                    eff, se = grid @ b, np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", grid, om, grid), 0))
                    check_point(rec, "basis", m.confint(g, level=lv), eff, se, lv, what, index=g.index)
            if k == 0 or case["joint"]:
                for lv, nb in ((0.9, 300), (0.95, 1)):
                    eff, se = X @ b, np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", X, om, X), 0))
                    if nb > 1:
                        check_joint(rec, "basis", m, df, X, om, eff, se, lv, nb, what)
                for bad in (df[names[::-1]], df[names[:-1]], df.rename(columns={names[0]: "zz"})):
                    try:
                        m.confint(bad)
                        rec.fail("basis:foreign", f"{what}: a basis with columns {list(bad.columns)} was accepted")
                    except ValueError:
                        pass


def ladder_case(case, rec):
    """larger bases and more groups on larger samples"""
    import doubleml as dml

    n, k = case["n"], case["k"]
    t = np.arange(n)
    s = np.round(np.sin(1.7 * t) * 3 + (t % 5) - 0.01 * t, 6)
    lab = (t * 7 + t // 3) % (k + case["none"])
    G = np.column_stack([lab == g for g in range(k)])
    names = [f"g{g}" for g in range(k)]
    what = f"{k} groups, {n} observations"
    m = dml.DoubleMLBLP(s, pd.DataFrame(G, columns=names), is_gate=True).fit()
    rec.trace()
    rec.state("ladder", n, k)
    r = check_fit(rec, "ladder", m, s, G.astype(float), names, what)
    if r is not None:
        b, om = r
        for lv in (0.5, 0.8, 0.95, 0.99):
            check_point(rec, "ladder", m.confint(level=lv), b, se_of(om), lv, what, index=names)
        check_summary(rec, "ladder", m, b, om, n, False, what)
        check_joint(rec, "ladder", m, None, np.eye(k), om, b, se_of(om), 0.9, 500, what)
    X = np.column_stack([np.ones(n)] + [np.cos((j + 1) * 0.37 * t + j) for j in range(k - 1)])
    names = [f"b{j}" for j in range(k)]
    for cov in COV:
        for use_t in (False, True):
            m = dml.DoubleMLBLP(s, pd.DataFrame(X, columns=names)).fit(cov_type=cov, use_t=use_t)
            rec.trace()
            rec.step()
            r = check_fit(rec, "ladder", m, s, X, names, f"{what} {cov}", cov)
            if r is None:
                return
            b, om = r
            check_summary(rec, "ladder", m, b, om, n, use_t, f"{what} {cov}")
            grid = np.column_stack([np.ones(25)] + [np.linspace(-2, 2, 25) ** (j % 3 + 1) for j in range(k - 1)])
            eff, se = grid @ b, np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", grid, om, grid), 0))
            g = pd.DataFrame(grid, columns=names, index=[f"p{j}" for j in range(25)])
            for lv in (0.8, 0.95):
                check_point(rec, "ladder", m.confint(g, level=lv), eff, se, lv, f"{what} {cov}", index=g.index)
            check_joint(rec, "ladder", m, g, grid, om, eff, se, 0.95, 500, f"{what} {cov}")
    rec.outcome("ladder", n, k)


# ------------------------------------------------------------------ models
MODELS = ["IRM-ate", "IRM-ate-norm", "IRM-biny", "IRM-w", "APO-1", "APO-0-w", "APO-2-norm", "APO-1-biny", "PLR-po", "PLR-iv", "PLR-bin"]


def fitted(cfg, df, labels):
    m = cfg.build(df)
    m.set_sample_splitting([smpls_from_labels(df.block, labels)])
    m.fit()
    return m


def signal(cfg, df, m, labels):
    """(signal, factor multiplying the basis)"""
    P = {k: v[:, 0, 0] for k, v in m.predictions.items()}
    n = len(df)
    y, d = df["y"].to_numpy(float), df["d"].to_numpy(float)
    if cfg.name.startswith("PLR"):
        l = P["ml_l"] if cfg.name != "PLR-iv" else P["ml_g"] + m.coef[0] * P["ml_m"]
        return y - l, d - P["ml_m"]
    a, b = ref_linear(cfg, df, "d", P, cfg.options(df), 0, smpls_from_labels(df.block, labels))
    return np.asarray(b, float) * np.ones(n), np.ones(n)


def gate_of(m):
    return m.gapo if hasattr(m, "gapo") else m.gate


def cate_of(m):
    return m.capo if hasattr(m, "capo") else m.cate


def model_case(case, rec):
    cfg = catalog()[case["cfg"]]
    df = cfg.frame(case["seed"])
    n = len(df)
    labels = case["labels"]
    CTL.reset(log=False)
    m = fitted(cfg, df, labels)
    s, f = signal(cfg, df, m, labels)
    key = cfg.name
    blk = df.block.to_numpy()
    half = (np.arange(n) // 4) % 2
    unit = blk if case["unit"] == 0 else (blk + 2 * half) % 4
    gate, cate = gate_of(m), cate_of(m)

    def one(groups, G, names, what, joint=False):
        g = gate(groups)
        rec.trace()
        X = G * f[:, None]
        r = check_fit(rec, key, g, s, X, names, what)
        if r is None:
            return None
        b, om = r
        check_point(rec, key, g.confint(level=0.9), b, se_of(om), 0.9, what, index=names)
        if joint:
            check_joint(rec, key, g, None, np.eye(len(b)), om, b, se_of(om), 0.95, 400, what)
            check_summary(rec, key, g, b, om, n, False, what)
        if not key.startswith("PLR") and (G.sum(1) <= 1).all():
            rec.expect(scaled_close(b, [s[G[:, j] > 0].mean() for j in range(G.shape[1])]), f"{key}:group-mean", what)
        if (G.sum(1) == 1).all():
            w = (G * (f ** 2)[:, None]).sum(0) if key.startswith("PLR") else G.sum(0)
            tot = np.sum(w * b) / np.sum(w)
            # a partially linear model weights the groups by the residual treatment variance
            want = m.coef[0] if key != "PLR-iv" else np.sum(f * s) / np.sum(f * f)
            scale = np.mean(s) / m.coef[0] if not key.startswith("PLR") else 1.0
            rec.expect(close(tot, want * scale, rtol=1e-7), f"{key}:total", f"{what}: groups average to {tot}, the overall effect is {want * scale}")
            if not key.startswith("PLR") and "-w" not in key:
                rec.expect(close(np.sum(w * b) / n, m.coef[0], rtol=1e-7), f"{key}:total", f"{what}: groups average to {tot}, the overall effect is {m.coef[0]}")
        rec.outcome(key, np.round(b, 7).tolist())
        return b

    # disjoint groups: every assignment of the four units to up to three groups or none
    for lab in itertools.product(range(4), repeat=4):
        gs = sorted(set(lab) - {0})
        if not gs or gs != list(range(1, len(gs) + 1)):
            continue
        L = np.array(lab)[unit]
        G = np.column_stack([(L == g) for g in gs]).astype(float)
        names = [f"c{g}" for g in gs]
        rec.state(key, labels, lab)
        what = f"units {lab}"
        b = one(pd.DataFrame(G.astype(bool), columns=names), G, names, what, joint=lab in ((1, 2, 2, 3), (1, 1, 2, 0), (1, 1, 1, 1)))
        if b is None:
            return
        full = 0 not in lab
        if full and len(gs) > 1:
            # one column of labels is expanded into one group per label
            for col in (np.array(["zabc"[v] for v in lab], dtype=object)[unit], pd.Categorical(np.array(["zabc"[v] for v in lab])[unit])):
                nm = [f"Group_{v}" for v in sorted(set("zabc"[v] for v in lab))]
                one(pd.DataFrame({"lab": col}), G, nm, what + " as labels")
        if len(gs) > 1 and full:
            one(pd.DataFrame(G.astype(bool), columns=names, index=[f"r{j}" for j in range(n)][::-1]), G, names, what + " with another row index")
        one(pd.DataFrame(G.astype(int), columns=names), G, names, what + " as integer dummies")
    # overlapping groups: every pair of subsets of the units
    for A, B in itertools.combinations(range(1, 16), 2):
        G = np.column_stack([[(v >> u) & 1 for u in unit] for v in (A, B)]).astype(float)
        X = G * f[:, None]
        if not full_rank(X) or np.linalg.cond(X) > 1e6:
            continue
        rec.state(key, labels, "overlap", A, B)
        one(pd.DataFrame(G.astype(bool), columns=["a", "b"]), G, ["a", "b"], f"overlapping groups {A:04b} {B:04b}", joint=(A, B) in ((3, 6), (7, 14)))
    # conditional effects on bases with every covariance type
    x1, x2 = df["X1"].to_numpy(), df["X2"].to_numpy()
    for cov in COV:
        for cols in ([np.ones(n)], [np.ones(n), x1], [x1, x2], [np.ones(n), np.round(x1), np.round(x2) ** 2]):
            B = np.column_stack(cols)
            if not full_rank(B * f[:, None]):
                continue
            names = [f"b{j}" for j in range(B.shape[1])]
            rec.trace()
            rec.step()
            kw = {} if cov == "HC0" else dict(cov_type=cov)
            g = cate(pd.DataFrame(B, columns=names, index=np.arange(n) + 100), **kw)
            r = check_fit(rec, key + ":cate", g, s, B * f[:, None], names, f"basis of {len(cols)} columns, {cov}", cov)
            if r is None:
                return
            b, om = r
            use_t = cov == "nonrobust"
            check_summary(rec, key + ":cate", g, b, om, n, use_t, cov)
            check_coefci(rec, key + ":cate", g, b, om, n, use_t, 0.9, cov)
            grid = pd.DataFrame(B[:5], columns=names)
            eff, se = B[:5] @ b, np.sqrt(np.einsum("ij,jk,ik->i", B[:5], om, B[:5]))
            check_point(rec, key + ":cate", g.confint(grid, level=0.95), eff, se, 0.95, cov, index=grid.index)
            check_joint(rec, key + ":cate", g, grid, B[:5], om, eff, se, 0.9, 400, cov)
    # rejected groups, and refits
    for bad in (pd.DataFrame(np.column_stack((x1, x2))), pd.DataFrame({"a": x1 > 0, "b": x2}), 2, np.ones((n, 2), bool), pd.DataFrame({"a": (unit == 0) * 2, "b": (unit == 1) * 3})):
        try:
            gate(bad)
            rec.fail(f"{key}:bad-groups", f"groups of type {type(bad)} accepted")
        except TypeError:
            pass
    other = [0, 1, 1, 0] if labels != [0, 1, 1, 0] else [0, 0, 1, 1]
    m.set_sample_splitting([smpls_from_labels(df.block, other)])
    try:
        g = gate(pd.DataFrame({"a": unit == 0}))
        rec.expect(np.isnan(np.asarray(g.blp_model.params, float)).all(), f"{key}:stale", "group effects reported for a splitting that was not fitted")
    except (ValueError, TypeError, AttributeError):
        pass
    m.fit()
    s, f = signal(cfg, df, m, other)
    G = np.column_stack((unit < 2, unit >= 2)).astype(float)
    one(pd.DataFrame(G.astype(bool), columns=["a", "b"]), G, ["a", "b"], "after a refit")
    m.set_sample_splitting([smpls_from_labels(df.block, other), smpls_from_labels(df.block, [1 - v for v in other])])
    m.fit()
    for fn in (lambda: gate(pd.DataFrame({"a": unit == 0})), lambda: cate(pd.DataFrame({"a": np.ones(n)}))):
        try:
            fn()
            rec.fail(f"{key}:repetitions", "group effects of a model with two repetitions")
        except NotImplementedError:
            pass


def score_case(case, rec):
    """scores whose signal is not an orthogonal signal of the effect are refused"""
    cfg = catalog()[case["cfg"]]
    df = cfg.frame(case["seed"])
    CTL.reset(log=False)
    m = fitted(cfg, df, [0, 1, 0, 1])
    n = len(df)
    for fn in [lambda: gate_of(m)(pd.DataFrame({"a": np.arange(n) % 2 == 0})), lambda: cate_of(m)(pd.DataFrame({"a": np.ones(n)}))] + ([lambda: m.policy_tree(df[["X1"]])] if hasattr(m, "policy_tree") else []):
        rec.trace()
        rec.state(case["cfg"])
        try:
            fn()
        except Exception:
            rec.outcome("refused")
            continue
        rec.fail(f"{case['cfg']}:score", "accepted")


# ------------------------------------------------------------------ policy trees
def same_tree(a, b):
    ta, tb = a.tree_, b.tree_
    return (ta.node_count == tb.node_count and np.array_equal(ta.children_left, tb.children_left) and np.array_equal(ta.feature, tb.feature)
            and np.allclose(ta.threshold, tb.threshold) and np.allclose(ta.value, tb.value) and np.allclose(ta.weighted_n_node_samples, tb.weighted_n_node_samples))


def tree_case(case, rec):
    import doubleml as dml
    from sklearn.tree import DecisionTreeClassifier

    grid = np.array(list(itertools.product((0.0, 1.0), repeat=2)) + [(2.0, 0.0)])
    n = len(grid)
    X = pd.DataFrame(grid, columns=["u", "v"], index=[f"k{j}" for j in range(n)])
    for sig in itertools.product((-2.0, -1.0, 0.0, 1.0, 3.0), repeat=n - 1):
        s = np.array((case["s0"],) + sig)
        if not np.any(s):
            continue
        lab, w = (s > 0).astype(float), np.abs(s)
        for depth, par in ((1, dict(ccp_alpha=0.0, min_samples_leaf=1)), (2, dict(min_samples_leaf=1)), (2, dict(ccp_alpha=0.0))):
            rec.step()
            t = dml.DoubleMLPolicyTree(s, X, depth=depth, random_state=3, **par).fit()
            q = dict(ccp_alpha=0.01, min_samples_leaf=8)
            q.update(par)
            ref = DecisionTreeClassifier(max_depth=depth, random_state=3, **q).fit(X, lab, sample_weight=w)
            if not same_tree(t.policy_tree, ref):
                rec.fail("tree:fit", f"signal {s.tolist()}, depth {depth}, {par}: the tree differs from the one fitted on the sign with weight |signal|")
                return
            p = t.predict(X)
            rec.expect(list(p.columns) == ["u", "v", "pred_treatment"] and np.array_equal(p["pred_treatment"].to_numpy(), ref.predict(X).astype(int)) and list(p.index) == list(X.index), "tree:predict", f"signal {s.tolist()}")
            rec.expect(set(np.unique(p["pred_treatment"])) <= {0, 1}, "tree:labels", "policy is not zero-one")
            rec.expect(t.policy_tree.get_depth() <= depth, "tree:depth", f"depth {t.policy_tree.get_depth()} for {depth}")
        rec.trace()
        rec.state("tree", s.tolist())
        rec.outcome(p["pred_treatment"].tolist())


def treemodel_case(case, rec):
    from sklearn.tree import DecisionTreeClassifier

    cfg = catalog()[case["cfg"]]
    df = cfg.frame(case["seed"])
    CTL.reset(log=False)
    labels = [0, 1, 0, 1]
    m = fitted(cfg, df, labels)
    s, _ = signal(cfg, df, m, labels)
    lab, w = (s > 0).astype(float), np.abs(s)
    feats = pd.DataFrame({"X1": df.X1.to_numpy(), "X2": df.X2.to_numpy(), "r": np.round(df.X1.to_numpy() * 2)}, index=np.arange(len(df)) + 7)
    for cols in [list(c) for k in (1, 2, 3) for c in itertools.permutations(feats.columns, k)]:
        for depth in (None, 1, 2, 3):
            for par in ({}, dict(min_samples_leaf=1), dict(ccp_alpha=0.0, min_samples_leaf=2)):
                rec.step()
                t = m.policy_tree(feats[cols], random_state=1, **({"depth": depth} if depth else {}), **par)
                q = dict(ccp_alpha=0.01, min_samples_leaf=8)
                q.update(par)
                ref = DecisionTreeClassifier(max_depth=depth or 2, random_state=1, **q).fit(feats[cols], lab, sample_weight=w)
                rec.trace()
                rec.state(cfg.name, cols, depth, sorted(par))
                rec.expect(same_tree(t.policy_tree, ref), f"tree:{cfg.name}:fit", f"features {cols}, depth {depth}, {par}")
                rec.expect(list(t.policy_tree.feature_names_in_) == cols and list(t.features.columns) == cols, f"tree:{cfg.name}:features", f"{cols}")
                p = t.predict(feats[cols])
                rec.expect(np.array_equal(p["pred_treatment"].to_numpy(), ref.predict(feats[cols]).astype(int)), f"tree:{cfg.name}:predict", f"{cols}")
                rec.expect(len(t.summary) == len(cols), f"tree:{cfg.name}:summary", f"{cols}")
        for bad in (feats[[c for c in feats if c not in cols]] if len(cols) < 3 else feats[["X1"]], feats[cols].assign(zz=1.0)):
            try:
                t.predict(bad)
                rec.fail(f"tree:{cfg.name}:foreign", f"a tree on {cols} predicted for {list(bad.columns)}")
            except KeyError:
                pass


def case_fn(case, rec):
    {"ladder": ladder_case, "assign": assign_case, "basis": basis_case, "model": model_case, "score": score_case, "tree": tree_case, "treemodel": treemodel_case}[case["kind"]](case, rec)


def cases(tier, seed):
    thor = tier == "thorough"
    n = 7 if thor else 6
    for sig in range(3) if thor else range(2):
        for first in itertools.product(range(4), repeat=2):
            yield dict(kind="assign", name="assign", n=n, sig=sig, first=list(first))
    for a, b in itertools.product((-1, 0, 2), repeat=2):
        for e in (0, 1):
            yield dict(kind="basis", name="basis", a=a, b=b, extra=[e], joint=thor)
    for n, k, none in ((40, 5, 1), (60, 9, 0), (150, 12, 2), (1100, 4, 0)):
        yield dict(kind="ladder", name="ladder", n=n, k=k, none=none)
    for s in [seed] if not thor else [seed + 17 * i for i in range(3)]:
        for c in MODELS:
            for lab in ([[0, 1, 0, 1]] if not thor else [[0, 1, 0, 1], [0, 1, 2, 1], [0, 1, 1, 1]]):
                for u in (0, 1) if thor else (0,):
                    yield dict(kind="model", name=c, cfg=c, labels=lab, unit=u, seed=s)
        for c in ("IRM-atte", "IRM-call", "PLR-2d", "PLR-call"):
            yield dict(kind="score", name=c, cfg=c, seed=s)
        for c in ("IRM-ate", "IRM-biny", "IRM-ate-norm", "IRM-w"):
            yield dict(kind="treemodel", name=c, cfg=c, seed=s)
    for s0 in (-2.0, -1.0, 0.0, 1.0, 3.0):
        yield dict(kind="tree", name="tree", s0=s0)


if __name__ == "__main__":
    Check("C19", case_fn, cases, rule="all assignments of 6 (thorough 7) observations to up to three groups or none; all bases with entries -1, 0, 2; all unit-wise "
          "group assignments and pairs of overlapping groups on fitted models; all signals over five values on a small grid for policy trees; projection, covariance, "
          "intervals and trees against independent computations").main()
