"""C24 data generators: every generator x structural parameters x size x return type x seed. The random draws made during the call are recorded; the noise implied by the
structural equations and the returned variables must be draws of that call, all return types carry the same values for the same seed, with the declared roles."""
import contextlib
import io
import itertools
import os
import random
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc.core import Check

ARR = ["array", "np.ndarray", "np.array", np.ndarray]


def frames():
    import pandas as pd

    return ["DataFrame", "pd.DataFrame", pd.DataFrame]


def objs(cluster):
    from doubleml import DoubleMLClusterData, DoubleMLData

    return ["DoubleMLClusterData", DoubleMLClusterData] if cluster else ["DoubleMLData", DoubleMLData]


def bad_types(cluster):
    import pandas as pd
    from doubleml import DoubleMLClusterData, DoubleMLData

    other = objs(not cluster)
    return ["", "Array", "dataframe", "doublemldata", "data", None, 0, 1.5, dict, pd.Series, list, np.float64, "DoubleML", "pd.Dataframe", *other]


# ------------------------------------------------------------------ recorded random draws
NAMES = ["normal", "standard_normal", "uniform", "randn", "rand", "random", "random_sample", "ranf", "sample", "multivariate_normal", "binomial", "choice", "exponential"]


class Draws:
    def __init__(self):
        self.calls = []

    def __enter__(self):
        self.saved = {}
        for nm in NAMES:
            f = getattr(np.random, nm, None)
            if f is None:
                continue
            self.saved[nm] = f
            setattr(np.random, nm, self.wrap(nm, f))
        return self

    def wrap(self, nm, f):
        def g(*a, **k):
            out = f(*a, **k)
            self.calls.append((nm, a, k, np.array(out, dtype=float, copy=True)))
            return out

        return g

    def __exit__(self, *a):
        for nm, f in self.saved.items():
            setattr(np.random, nm, f)

    def pool(self):
        return np.sort(np.concatenate([c[3].ravel() for c in self.calls] or [np.zeros(0)]))

    def holds(self, v, tol=1e-7):
        """every entry of v is a draw of this call"""
        p = self.pool()
        v = np.asarray(v, dtype=float).ravel()
        if p.size == 0:
            return False
        if not np.isfinite(v).all():
            return False
        i = np.clip(np.searchsorted(p, v), 1, p.size - 1) if p.size > 1 else np.zeros(v.size, int)
        d = np.minimum(np.abs(p[i] - v), np.abs(p[i - 1] - v)) if p.size > 1 else np.abs(p[0] - v)
        return bool(np.all(d <= tol * (1 + np.abs(v))))

    def cov_of(self, x):
        """covariance argument of the multivariate draw which produced the rows of x"""
        for nm, a, k, out in self.calls:
            if nm == "multivariate_normal" and out.shape == x.shape and np.allclose(out, x):
                return np.asarray(k["cov"] if "cov" in k else a[1], dtype=float), np.asarray(k["mean"] if "mean" in k else a[0], dtype=float)
        return None

    def joint(self, u, v):
        """(u, v) rows of a bivariate draw; returns its covariance"""
        for nm, a, k, out in self.calls:
            if nm == "multivariate_normal" and out.ndim == 2 and out.shape[1] == 2 and out.shape[0] == len(u):
                for p in ((0, 1), (1, 0)):
                    if np.allclose(out[:, p[0]], u, atol=1e-7) and (v is None or np.allclose(out[:, p[1]], v, atol=1e-7)):
                        return np.asarray(k["cov"] if "cov" in k else a[1], dtype=float)
        return None


def toep(r, k):
    return np.array([[float(r) ** abs(i - j) if not (r == 0 and i == j) else 1.0 for j in range(k)] for i in range(k)])


def sig(w):
    return 1 / (1 + np.exp(-w))


class Ctx:
    def __init__(self, rec, case, gen, kw, n):
        self.rec, self.gen, self.kw, self.n = rec, gen, kw, n

    def ok(self, cond, key, msg=""):
        return self.rec.expect(bool(cond), f"{self.gen}:{key}", f"{self.gen}(n={self.n}, {self.kw}): {msg or key}")

    def noise(self, dr, v, key, scale=1.0):
        v = np.asarray(v, dtype=float)
        cands = [v]
        if scale != 1.0:
            cands.append(v / scale)
        self.ok(any(dr.holds(c) for c in cands), key, "the noise implied by the structural equation is none of the random draws of the call")


def mvn(c, dr, x, r, key="x"):
    got = dr.cov_of(x)
    if c.ok(got is not None, key + "-draw", "covariates are not a multivariate normal draw of the call"):
        c.ok(np.allclose(got[0], toep(r, x.shape[1])) and np.allclose(got[1], 0), key + "-covariance", "covariance of the covariates")


def binary(c, v, key):
    c.ok(np.isin(np.asarray(v, dtype=float), [0.0, 1.0]).all(), key + "-binary", "documented as binary")


def zcols(x, five):
    t = [np.exp(0.5 * x[:, 0]), 10 + x[:, 1] / (1 + np.exp(x[:, 0])), (0.6 + x[:, 0] * x[:, 2] / 25) ** 3, (20 + x[:, 1] + x[:, 3]) ** 2]
    t += [x[:, j] for j in range(4, x.shape[1])] if five else []
    t = np.column_stack(t)
    return (t - t.mean(axis=0)) / t.std(axis=0)


def freg(w):
    return 210 + 27.4 * w[:, 0] + 13.7 * (w[:, 1] + w[:, 2] + w[:, 3])


# ------------------------------------------------------------------ models: structural equations on the arrays
def m_ccddhnr(c, dr, a, k):
    x, y, d = a
    g = lambda nm, v: k.get(nm, v)
    mvn(c, dr, x, 0.7)
    c.noise(dr, (d - g("a_0", 1.0) * x[:, 0] - g("a_1", 0.25) * sig(x[:, 2])) / g("s_1", 1.0), "d-equation")
    c.noise(dr, (y - g("alpha", 0.5) * d - g("b_0", 1.0) * sig(x[:, 0]) - g("b_1", 0.25) * x[:, 2]) / g("s_2", 1.0), "y-equation")


def wrap_m(w, nu=0.0, gamma=1.0):
    return 0.5 / np.pi * np.sinh(gamma) / (np.cosh(gamma) - np.cos(w - nu))


def m_turrell(c, dr, a, k):
    x, y, d = a
    b = 1 / np.arange(1, x.shape[1] + 1)
    w = x @ b
    got = dr.cov_of(x)
    if c.ok(got is not None, "x-draw"):
        c.ok(np.allclose(got[0], got[0].T) and np.linalg.eigvalsh(got[0]).min() > 0, "x-covariance")
    c.noise(dr, d - wrap_m(w, k.get("nu", 0.0), k.get("gamma", 1.0)), "d-equation")
    c.noise(dr, y - k.get("theta", 0.5) * d - np.sin(w) ** 2, "y-equation")


def beta2(k):
    return 1 / np.arange(1, k + 1) ** 2


def m_irm(c, dr, a, k):
    x, y, d = a
    p = x.shape[1]
    mvn(c, dr, x, 0.5)
    binary(c, d, "d")
    b = beta2(p)
    q = b @ toep(0.5, p) @ b
    cy = np.sqrt(k.get("R2_y", 0.5) / ((1 - k.get("R2_y", 0.5)) * q))
    cd = np.sqrt(np.pi**2 / 3 * k.get("R2_d", 0.5) / ((1 - k.get("R2_d", 0.5)) * q))
    c.noise(dr, y - k.get("theta", 0) * d - cy * (x @ b) * d, "y-equation")
    pr = sig(cd * (x @ b))
    # some uniform draw of the call explains the treatment
    c.ok(any(o.shape == pr.shape and np.array_equal(1.0 * (pr > o), d) for nm, _, _, o in dr.calls if nm != "multivariate_normal"), "d-equation", "treatment not implied by the propensity and the draws")


def m_iivm(c, dr, a, k):
    x, y, d, z = a
    mvn(c, dr, x, 0.5)
    binary(c, d, "d")
    binary(c, z, "z")
    u = y - k.get("theta", 1.0) * d - x @ beta2(x.shape[1])
    c.noise(dr, u, "y-equation")
    done = False
    for nm, aa, kk, o in dr.calls:
        if nm == "multivariate_normal" and o.shape == (len(y), 2):
            for p in ((0, 1), (1, 0)):
                if np.allclose(o[:, p[0]], u, atol=1e-7) and np.array_equal(1.0 * (k.get("alpha_x", 0.2) * z + o[:, p[1]] > 0), d):
                    done = np.allclose(kk["cov"] if "cov" in kk else aa[1], [[1, 0.3], [0.3, 1]])
    c.ok(done, "d-equation", "treatment not implied by instrument and correlated error")


def m_pliv(c, dr, a, k):
    x, y, d, z = a
    w = x @ (1 / np.arange(1, x.shape[1] + 1))
    c.noise(dr, z - wrap_m(w), "z-equation")
    c.noise(dr, d - wrap_m(k.get("gamma_z", 0.4) * z + w), "d-equation")
    c.noise(dr, y - k.get("theta", 0.5) * d - np.sin(w) ** 2, "y-equation")


def m_chs(c, dr, a, k):
    x, y, d, z = a
    mvn(c, dr, x, 0.5)
    q = z.shape[1]
    xi = z - x[:, :q]
    got = dr.cov_of(xi)
    if c.ok(got is not None, "z-equation"):
        c.ok(np.allclose(got[0], 0.25 * np.eye(q)), "z-covariance")
    u = d - x @ beta2(x.shape[1]) - z @ beta2(q)
    e = y - k.get("alpha", 1.0) * d - x @ beta2(x.shape[1])
    cov = dr.joint(e, u)
    if c.ok(cov is not None, "error-equation", "structural errors are not a bivariate draw"):
        c.ok(np.allclose(cov, [[1, 0.6], [0.6, 1]]), "error-covariance")


def m_ckms(c, dr, a, k):
    x, y, d, cl, z = a
    N, M, P = k["N"], k["M"], k["dim_X"]
    base = 0.5 ** np.arange(1, P + 1)
    g = k.get
    v = d - g("pi_10", 1.0) * z - x @ g("pi_20", base)
    e = y - g("theta", 1.0) * d - x @ g("zeta_0", base)
    V = z - x @ g("xi_0", base)
    c.ok(cl.shape == (N * M, 2) and np.array_equal(np.asarray(cl, dtype=int), np.array(list(itertools.product(range(N), range(M))))), "clusters", "cluster variables are not the N x M grid")
    sev, sX = g("s_epsilon_v", 0.25), g("s_X", 0.25)

    def parts(val, om, ident, j, i_, jj):
        return np.allclose(val, (1 - om[0] - om[1]) * ident + om[0] * np.repeat(i_, M, axis=0) + om[1] * (np.tile(jj, (N, 1)) if jj.ndim == 2 else np.tile(jj, N)), atol=1e-8)

    def find(val, om, pick, cov=None, mv=True):
        """some triple of draws (ij, i, j) gives val"""
        def cand(size):
            for nm, aa, kk, o in dr.calls:
                for q in (pick(o) if o.ndim >= 1 and len(o) == size else []):
                    if q is None:
                        continue
                    if cov is not None and nm == "multivariate_normal" and not np.allclose(kk["cov"] if "cov" in kk else aa[1], cov):
                        continue
                    yield q
        for A in cand(N * M):
            for B in cand(N):
                for C in cand(M):
                    if A.shape[1:] == B.shape[1:] == C.shape[1:] == val.shape[1:] and parts(val, om, A, None, B, C):
                        return True
        return False

    dft = np.array([0.25, 0.25])
    c.ok(find(x, g("omega_X", dft), lambda o: [o] if o.ndim == 2 and o.shape[1] == P else [], toep(sX, P)), "x-components", "covariates are not the weighted sum of the cluster components")
    if P != 2:
        two = lambda o: [o[:, 0], o[:, 1]] if o.ndim == 2 and o.shape[1] == 2 else []
    else:
        two = lambda o: [o[:, 0], o[:, 1]] if o.ndim == 2 else []
    c.ok(find(e, g("omega_epsilon", dft), two, None), "eps-components", "outcome error")
    c.ok(find(v, g("omega_v", dft), two, None), "v-components", "treatment error")
    c.ok(find(V, g("omega_V", dft), lambda o: [o] if o.ndim == 1 else []), "V-components", "instrument error")
    if P != 2:
        covs = [np.asarray(kk["cov"] if "cov" in kk else aa[1]) for nm, aa, kk, o in dr.calls if nm == "multivariate_normal" and o.ndim == 2 and o.shape[1] == 2]
        c.ok(covs and all(np.allclose(q, [[1, sev], [sev, 1]]) for q in covs), "error-covariance")


def m_did(c, dr, a, k):
    zz, y, d, t = a
    cc, xi, lam, cs = k.get("c", 0.0), k.get("xi", 0.75), k.get("lambda_t", 0.5), k.get("cross_sectional_data", False)
    binary(c, d, "d")
    c.ok((t is None) == (not cs), "t-role", "time variable only for repeated cross sections")
    if cs:
        binary(c, t, "t")
    n = len(y)
    # the untransformed covariates are the draw whose transformation is returned
    x = None
    for nm, aa, kk, o in dr.calls:
        if nm == "multivariate_normal" and o.shape == (n, 4) and np.allclose(zcols(o, False), zz, atol=1e-7):
            x = o
    if not c.ok(x is not None, "z-transform", "returned covariates are not the documented transformation of a draw"):
        return
    mvn(c, dr, x, cc)
    dgp = k.get("dgp_type", 1)
    wr = zz if dgp in (1, 2, 5) else x
    wp = {1: zz, 2: x, 3: zz, 4: x}.get(dgp)
    pr = 0.5 * np.ones(n) if wp is None else sig(xi * (-wp[:, 0] + 0.5 * wp[:, 1] - 0.25 * wp[:, 2] - 0.1 * wp[:, 3]))
    one = [o for nm, _, _, o in dr.calls if o.shape == (n,)]
    c.ok(any(np.array_equal(1.0 * (pr >= o), d) for o in one), "d-equation")
    f = freg(wr)
    # y1 - y0 = f + e1(d) - e0 ; cross sections: t*(2f + nu + e1(d)) + (1-t)*(f + nu + e0) with nu a draw around d*f
    two = [o for nm, _, _, o in dr.calls if o.shape == (n, 2)]
    nus = [o for o in one if np.all(np.abs(o - d * f) < 6)]
    good = False
    for e1 in two:
        ee = d * e1[:, 1] + (1 - d) * e1[:, 0]
        eb = d * e1[:, 0] + (1 - d) * e1[:, 1]
        for e in (ee, eb):
            for e0 in one:
                if not cs:
                    good |= np.allclose(y, f + e - e0, atol=1e-6)
                else:
                    for nu in nus:
                        good |= np.allclose(y, t * (2 * f + nu + e) + (1 - t) * (f + nu + e0), atol=1e-6)
    c.ok(good, "y-equation", "outcome is not implied by the potential outcomes and the draws")
    if cs:
        c.ok(any(np.array_equal(1.0 * (o <= lam), t) for o in one), "t-equation")


def m_ssm(c, dr, a, k):
    x, y, d, z, s = a
    mar = k.get("mar", True)
    mvn(c, dr, x, 0.5)
    binary(c, d, "d")
    binary(c, s, "s")
    w = x @ (0.4 * beta2(x.shape[1]))
    c.ok(np.all(np.asarray(y)[np.asarray(s) == 0] == 0), "y-unobserved", "unobserved outcomes are zero")
    n = len(y)
    rho, gam = (0.0, 0.0) if mar else (0.8, 1.0)
    good = False
    for nm, aa, kk, o in dr.calls:
        if nm == "multivariate_normal" and o.shape == (n, 2):
            cov = np.asarray(kk["cov"] if "cov" in kk else aa[1], dtype=float)
            if not np.allclose(cov, [[1, rho], [rho, 1]]):
                continue
            for p in ((0, 1), (1, 0)):
                good |= np.allclose(np.asarray(y)[s == 1], (w + k.get("theta", 1) * d + o[:, p[1]])[s == 1], atol=1e-7) and np.array_equal(1 * (w + d + gam * z + o[:, p[0]] > 0), s)
    c.ok(good, "outcome-and-selection-equation")
    c.noise(dr, z, "z-draw")
    c.ok(any(o.shape == (n,) and np.array_equal(1 * (w + o > 0), d) for nm, _, _, o in dr.calls), "d-equation")


# dictionaries
def d_cirm(c, dr, r, k):
    x, y, d, o = r["x"], r["y"], r["d"], r["oracle_values"]
    n = len(y)
    z = zcols(x, True)[:, :5]
    ga, ba, th, lin = k.get("gamma_a", 0.127), k.get("beta_a", 0.58), k.get("theta", 0.0), k.get("linear", False)
    tr = k.get("trimming_threshold", 0.01)
    binary(c, d, "d")
    mvn(c, dr, x, 0)
    c.ok(np.allclose(o["z"], z), "z-transform")
    c.ok(o["gamma_a"] == ga and o["beta_a"] == ba, "oracle-parameters")
    w = x if lin else z
    pr = sig(0.75 * (-w[:, 0] + 0.1 * w[:, 1] - 0.25 * w[:, 2] - 0.1 * w[:, 3]))
    a = o["a"]
    c.noise(dr, a, "confounder-draw")
    c.ok(np.all(np.abs(a) <= 1), "confounder-range")
    ml = pr + ga * a
    if np.any(ml < tr) or np.any(ml > 1 - tr):
        ml, ms = np.clip(ml, tr, 1 - tr), np.clip(pr, tr, 1 - tr)
    else:
        ms = pr
    c.ok(np.allclose(o["m_long"], ml) and np.allclose(o["m_short"], ms), "oracle-propensities")
    c.ok(any(q.shape == (n,) and np.array_equal(1.0 * (ml >= q), d) for nm, _, _, q in dr.calls), "d-equation")
    g = 2.5 + 0.74 * w[:, 0] + 0.25 * w[:, 1] + 0.137 * (w[:, 2] + w[:, 3])
    dx = z[:, 4] + 1
    gl = th * d * dx + g + ba * a
    c.ok(np.allclose(o["g_long"], gl), "oracle-g-long")
    sc = np.sqrt(k.get("var_eps_y", 1.0))
    c.noise(dr, y - gl, "y-equation", sc)
    c.ok(np.allclose(o["y_0"], g + ba * a + (y - gl)) and np.allclose(o["y_1"], th * dx + g + ba * a + (y - gl)), "oracle-potential-outcomes")
    v = np.var(d * dx)
    if v > 0:
        gs = (th + ba * ga / 3 / v) * d * dx + g
        c.ok(np.allclose(o["g_short"], gs), "oracle-g-short")
        c.ok(np.allclose(o["cf_y"], np.mean((gl - gs) ** 2) / np.mean((y - gs) ** 2)), "oracle-cf-y")
    i = lambda m: np.mean(1 / (m * (1 - m)))
    od = lambda m: np.mean(m / (1 - m))
    c.ok(np.allclose(o["cf_d_ate"], 1 - i(ms) / i(ml)) and np.allclose(o["cf_d_atte"], 1 - od(ms) / od(ml)), "oracle-cf-d")
    if ba == 0 or ga == 0:
        c.ok(o["rho_ate"] == 0 and o["rho_atte"] == 0, "oracle-rho")
    elif v > 0 and 0 < d.mean() < 1:
        rr = lambda m: d / m - (1 - d) / (1 - m)
        rt = lambda m: d / d.mean() - (1 - d) / d.mean() * m / (1 - m)
        c.ok(np.allclose(o["rho_ate"], np.corrcoef(gl - gs, rr(ml) - rr(ms))[0, 1], equal_nan=True) and
             np.allclose(o["rho_atte"], np.corrcoef(gl - gs, rt(ml) - rt(ms))[0, 1], equal_nan=True), "oracle-rho")


def d_cplr(c, dr, r, k):
    x, y, d, o = r["x"], r["y"], r["d"], r["oracle_values"]
    z = zcols(x, True)
    mvn(c, dr, x, k.get("c", 0.0))
    c.ok(np.allclose(o["z"], z), "z-transform")
    a, ga, ba, th = o["a"], o["gamma_a"], o["beta_a"], k.get("theta", 5.0)
    c.ok(o["theta"] == th, "oracle-parameters")
    c.noise(dr, a, "confounder-draw")
    ms = -z[:, 0] + 0.5 * z[:, 1] - 0.25 * z[:, 2] - 0.1 * z[:, 3]
    c.ok(np.allclose(o["m_short"], ms) and np.allclose(o["m_long"], ms + ga * a), "oracle-treatment-regression")
    c.noise(dr, d - ms - ga * a, "d-equation")
    ed = d - ms - ga * a
    gl = th * d + freg(z) + ba * a
    gs = (th + ga * ba / 3 / np.var(d)) * d + freg(z)
    c.ok(np.allclose(o["g_long"], gl) and np.allclose(o["g_short"], gs), "oracle-regressions")
    c.noise(dr, y - gl, "y-equation", np.sqrt(5))
    # desired in-sample strength of confounding where attainable
    cy, cd = k.get("cf_y", 0.04), k.get("cf_d", 0.04)
    got_y = np.mean((gl - gs) ** 2) / np.mean((y - gs) ** 2)
    c.ok(abs(got_y - cy) < 5e-3, "confounding-y", f"in-sample share {got_y} instead of {cy}")
    rl, rs = np.mean(ed**2), np.mean(((ga * a + ed) / (ga**2 / 3 + 1)) ** 2)
    got_d = 1 - rs / rl
    if len(y) >= 40:
        c.ok(abs(got_d - cd) < 5e-3, "confounding-d", f"in-sample gain {got_d} instead of {cd}")


def d_het(c, dr, r, k):
    import pandas as pd

    df, te, fn = r["data"], r["effects"], r["treatment_effect"]
    p, sup, nx, bt = k.get("p", 30), k.get("support_size", 5), k.get("n_x", 1), k.get("binary_treatment", False)
    c.ok(list(df.columns) == ["y", "d"] + [f"X_{i}" for i in range(p)] and len(df) == k["n_obs"], "shape")
    x = df.iloc[:, 2:].values
    c.noise(dr, x, "x-draw")
    c.ok(np.all((x >= 0) & (x <= 1)), "x-range")
    want = np.exp(2 * x[:, 0]) + 3 * np.sin(4 * x[:, 0 if nx == 1 else 1])
    c.ok(np.allclose(te, want) and np.allclose(fn(x), want), "effects")
    d, y = df["d"].values, df["y"].values
    if bt:
        binary(c, d, "d")
    n = len(df)
    ones = [o for nm, _, _, o in dr.calls if o.shape == (n,)]
    coef = [o for nm, _, _, o in dr.calls if o.shape == (sup,)]
    gy = gd = False
    for s in coef:
        if not np.allclose(s, np.round(s)) or len(set(s)) != sup or s.min() < 0 or s.max() >= p:
            continue
        xs = x[:, s.astype(int)]
        for q in coef:
            if np.allclose(q, np.round(q)) and sup > 1:
                continue
            for e in ones:
                gy |= np.allclose(y, te * d + xs @ q + e)
                gd |= np.allclose(q.max(initial=0) <= 0.3, True) and (np.array_equal(1.0 * (xs @ q >= e), d) if bt else np.allclose(d, xs @ q + e))
    c.ok(gy, "y-equation")
    c.ok(gd, "d-equation")


def d_disc(c, dr, r, k):
    x, y, d, o = r["x"], r["y"], r["d"], r["oracle_values"]
    L, lin, xi = k.get("n_levels", 3), k.get("linear", False), k.get("xi", 0.3)
    mvn(c, dr, x, k.get("c", 0.0))
    z = zcols(x, True)
    w = x if lin else z
    n = len(y)
    c.noise(dr, o["cont_d"] - xi * (-w[:, 0] + 0.5 * w[:, 1] - 0.25 * w[:, 2] - 0.1 * w[:, 3]), "d-equation")
    c.noise(dr, o["y0"] - freg(w), "y0-equation", np.sqrt(5))
    c.ok(np.allclose(y, o["y0"] + o["ite"] * (d > 0)), "y-equation", "only treated units carry the effect")
    b = np.quantile(o["cont_d"], np.linspace(0, 1, L + 1))
    c.ok(np.allclose(o["level_bounds"], b), "level-bounds")
    pl = 1 + sum((o["cont_d"] >= q).astype(float) for q in b[1:-1])
    c.ok(np.array_equal(np.asarray(o["potential_level"], dtype=float) * np.ones(n), pl * np.ones(n)), "potential-levels")
    c.ok(np.isin(d, np.arange(L + 1)).all() and np.all((d == 0) | (d == pl)), "level-values")
    c.ok(any(q.shape == (n,) and np.array_equal((q >= 1 / L) * pl, d) for nm, _, _, q in dr.calls), "baseline-equation")


def d_rdd(c, dr, r, k):
    s, y, d, x, o = r["score"], r["Y"], r["D"], r["X"], r["oracle_values"]
    p, fz, bo = k.get("p", 4), k.get("fuzzy", True), k.get("binary_outcome", False)
    cut, dx, a, tau = k.get("cutoff", 0.0), k.get("dim_x", 3), k.get("a", 0.0), k.get("tau", 1.0)
    n = len(y)
    c.ok(x.shape == (n, dx) and s.shape == y.shape == d.shape == (n,), "shape")
    c.noise(dr, s, "score-draw")
    c.noise(dr, x, "x-draw")
    binary(c, d, "d")
    T = (s >= cut).astype(int)
    cov = np.zeros(n) if p == 0 else sum((j * x**j).sum(axis=1) for j in range(p + 1))
    c.ok(np.allclose(y, np.where(d == 1, o["Y1"], o["Y0"])), "consistency", "observed outcome is the potential outcome under the treatment")
    if not fz:
        c.ok(np.array_equal(d, T), "sharp", "sharp design: treated exactly from the cutoff on")
    else:
        pr = np.clip(0.3 + 0.4 * T + 0.01 * s**2 - 0.02 * s**2 * T + 0.2 * cov, 0, 1)
        c.ok(any(nm == "binomial" and q.shape == (n,) and np.array_equal(q, d) and np.allclose(kk["p"] if "p" in kk else aa[1], pr) for nm, aa, kk, q in dr.calls), "take-up")
    g0, g1 = 0.1 * s**2, tau - 0.4 * s**2 + a * x.sum(axis=1) * s
    if bo:
        binary(c, y, "y")
        for g, nm_ in ((g0, "Y0"), (g1, "Y1")):
            c.ok(any(nm == "binomial" and q.shape == (n,) and np.array_equal(q, o[nm_]) and np.allclose(kk["p"] if "p" in kk else aa[1], sig(g + cov)) for nm, aa, kk, q in dr.calls), "outcome-" + nm_)
    else:
        c.noise(dr, o["Y0"] - g0 - cov, "outcome-Y0", 0.2)
        c.noise(dr, o["Y1"] - g1 - cov, "outcome-Y1", 0.2)


def obs_kw(n):
    return {"n_obs": n}


# name -> (module, equations, parameter grid, roles, min n)
def grid(**ax):
    return [dict(zip(ax, v)) for v in itertools.product(*ax.values())]


MULTI = {
    "make_plr_CCDDHNR2018": dict(eq=m_ccddhnr, dim="dim_x", dims=(3, 4, 20), roles="xyd",
                                 grid=[{}] + grid(alpha=[0.5, -2.0], a_0=[1.0, 0.3], a_1=[0.25, 2.0], s_1=[1.0, 2.0], b_0=[1.0, 3.0], b_1=[0.25, -1.0], s_2=[1.0, 0.5])),
    "make_plr_turrell2018": dict(eq=m_turrell, dim="dim_x", dims=(1, 2, 5, 20), roles="xyd", grid=[{}] + grid(theta=[0.5, -3.0], nu=[0.0, 0.7], gamma=[1.0, 2.0])),
    "make_irm_data": dict(eq=m_irm, dim="dim_x", dims=(1, 2, 5, 20), roles="xyd", grid=[{}] + grid(theta=[0, 2.5], R2_d=[0.5, 0.1], R2_y=[0.5, 0.8])),
    "make_iivm_data": dict(eq=m_iivm, dim="dim_x", dims=(1, 2, 5, 20), roles="xydz", grid=[{}] + grid(theta=[1.0, -2.0], alpha_x=[0.2, 1.5])),
    "_make_pliv_data": dict(eq=m_pliv, dim="dim_x", dims=(1, 2, 5, 20), roles="xydz", grid=[{}] + grid(theta=[0.5, 2.0], gamma_z=[0.4, 1.0])),
    "make_pliv_CHS2015": dict(eq=m_chs, dim="dim_x", dims=(3, 6), roles="xydZ", grid=grid(dim_z=[1, 2, 3], alpha=[1.0, -0.5])),
    "make_did_SZ2020": dict(eq=m_did, dim=None, dims=(4,), roles="xydt", grid=grid(dgp_type=[1, 2, 3, 4, 5, 6], cross_sectional_data=[False, True], xi=[0.75, 1.5], c=[0.0, 0.4], lambda_t=[0.5, 0.3])),
    "make_ssm_data": dict(eq=m_ssm, dim="dim_x", dims=(1, 2, 5, 20), roles="xydzs", grid=grid(mar=[True, False], theta=[1, 0.0, -2.5])),
    "make_pliv_multiway_cluster_CKMS2021": dict(eq=m_ckms, dim="dim_X", dims=(1, 3, 4), roles="cluster", grid=[{}] + grid(
        theta=[1.0, -2.0], pi_10=[1.0, 0.5], omega_X=[None, (0.1, 0.3)], omega_epsilon=[None, (0.3, 0.1)], omega_v=[None, (0.0, 0.4)], omega_V=[None, (0.4, 0.2)], s_X=[0.25, 0.6], s_epsilon_v=[0.25, 0.5])),
}
DICTS = {
    "make_confounded_irm_data": dict(eq=d_cirm, grid=[{}] + grid(theta=[0.0, 3.0], gamma_a=[0.127, 0.0, 0.3], beta_a=[0.58, 0.0], linear=[False, True], trimming_threshold=[0.01, 0.2], var_eps_y=[1.0, 4.0])),
    "make_confounded_plr_data": dict(eq=d_cplr, grid=[{}] + grid(theta=[5.0, -1.0], cf_y=[0.04, 0.2], cf_d=[0.04, 0.1], c=[0.0, 0.3], dim_x=[4, 6])),
    "make_heterogeneous_data": dict(eq=d_het, grid=[{}] + grid(p=[2, 6, 30], support_size=[1, 2], n_x=[1, 2], binary_treatment=[False, True])),
    "make_irm_data_discrete_treatments": dict(eq=d_disc, grid=[{}] + grid(n_levels=[2, 3, 5], linear=[False, True], xi=[0.3, 1.0], c=[0.0, 0.4], dim_x=[5, 7], random_state=[None, 11])),
    "make_simple_rdd_data": dict(eq=d_rdd, grid=[{}] + grid(p=[4, 0, 1], fuzzy=[True, False], binary_outcome=[False, True], cutoff=[0.0, 0.5], dim_x=[3, 1], a=[0.0, 0.7], tau=[1.0, -2.0])),
}


def fn_of(gen):
    import doubleml.datasets as D
    from doubleml.rdd.datasets import make_simple_rdd_data

    return make_simple_rdd_data if gen == "make_simple_rdd_data" else getattr(D, gen)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


def globals_state():
    import pandas as pd

    return (random.getstate(), dict(os.environ), np.geterr(), tuple(map(str, warnings.filters)), str(np.get_printoptions()), pd.get_option("display.max_columns"),
            pd.get_option("mode.copy_on_write"))


def call(gen, seed, kw):
    """one recorded call; returns value, draws, position of the random stream, state unchanged?"""
    fn = fn_of(gen)
    np.random.seed(seed)
    kw2 = {k: (np.array(v) if isinstance(v, tuple) else v) for k, v in kw.items() if v is not None}
    keep = {k: np.array(v, copy=True) for k, v in kw2.items() if isinstance(v, np.ndarray)}
    with quiet():
        before = globals_state()
        with Draws() as dr:
            out = fn(**kw2)
        same = globals_state() == before and all(np.array_equal(v, kw2[k]) for k, v in keep.items())
        nxt = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    return out, dr, nxt, same


def arrays_of_frame(df, roles, k):
    g = lambda pre: df[[q for q in df.columns if q.startswith(pre)]].values
    if roles == "cluster":
        return g("X"), df["Y"].values, df["D"].values, df[["cluster_var_i", "cluster_var_j"]].values, df["Z"].values
    if roles == "xydt":
        return g("Z"), df["y"].values, df["d"].values, (df["t"].values if "t" in df else None)
    out = [g("X"), df["y"].values, df["d"].values]
    if roles == "xydz":
        out.append(df["z"].values)
    elif roles == "xydZ":
        out.append(g("Z"))
    elif roles == "xydzs":
        out += [df["z"].values if "z" in df else None, df["s"].values]
    return tuple(out)


def want_columns(roles, p, k):
    X = [f"X{i + 1}" for i in range(p)]
    if roles == "cluster":
        return ["cluster_var_i", "cluster_var_j"] + X + ["Y", "D", "Z"]
    if roles == "xydt":
        return [f"Z{i + 1}" for i in range(4)] + ["y", "d"] + (["t"] if k.get("cross_sectional_data") else [])
    return X + ["y", "d"] + {"xyd": [], "xydz": ["z"], "xydZ": [f"Z{i + 1}" for i in range(k.get("dim_z", 0))], "xydzs": (["s"] if k.get("mar", True) else ["z", "s"])}[roles]


def eqv(a, b):
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.array_equal(a, b)


def multi_case(case, rec):
    import pandas as pd

    gen, base, n, p, seed = case["gen"], case["kw"], case["n"], case["p"], case["seed"]
    m = MULTI[gen]
    cluster = m["roles"] == "cluster"
    kw = {k: v for k, v in base.items() if v is not None}
    if cluster:
        kw.update(N=n[0], M=n[1])
        rows = n[0] * n[1]
    else:
        kw["n_obs"] = n
        rows = n
    if m["dim"]:
        kw[m["dim"]] = p
    c = Ctx(rec, case, gen, kw, n)
    ref = None
    first_pos = None
    outs = {}
    types = [("a", t) for t in ARR] + [("f", t) for t in frames()] + [("o", t) for t in objs(cluster)] + [("o", None)]
    if not case["full"]:
        types = [("a", ARR[0]), ("f", frames()[0]), ("o", objs(cluster)[1])]
    for kind, t in types:
        rec.step()
        k2 = dict(kw)
        if t is not None:
            k2["return_type"] = t
        out, dr, pos, same = call(gen, seed, k2)
        c.ok(same, "global-state", "a generator changed global state or its arguments")
        if kind == "a":
            c.ok(isinstance(out, tuple) and all(isinstance(v, np.ndarray) or v is None for v in out), "array-type")
            arrs = out
            m["eq"](c, dr, out, {k: (np.array(v) if isinstance(v, tuple) else v) for k, v in kw.items()})
            c.ok(all(v is None or len(v) == rows for v in out), "array-rows", "number of observations")
            c.ok(out[0].ndim == 2 and out[0].shape[1] == p, "array-covariates", "number of covariates")
        elif kind == "f":
            c.ok(type(out) is pd.DataFrame, "frame-type")
            c.ok(list(out.columns) == want_columns(m["roles"], p, kw) and len(out) == rows and list(out.index) == list(range(rows)), "frame-layout", f"columns {list(out.columns)[:40]}")
            arrs = arrays_of_frame(out, m["roles"], kw)
        else:
            c.ok(type(out) is objs(cluster)[1], "object-type")
            wc = want_columns(m["roles"], p, kw)
            cov = [q for q in wc if q.startswith("X")] if m["roles"] != "xydt" else wc[:4]
            ins = {"cluster": ["Z"], "xydz": ["z"], "xydZ": [f"Z{i + 1}" for i in range(kw.get("dim_z", 0))], "xydzs": None if kw.get("mar", True) else ["z"]}.get(m["roles"])
            roles = (out.y_col, out.d_cols, out.x_cols, out.z_cols, out.t_col if not cluster else None, out.s_col if not cluster else None)
            want = ("Y" if cluster else "y", ["D" if cluster else "d"], cov, ins, "t" if m["roles"] == "xydt" and kw.get("cross_sectional_data") else None, "s" if m["roles"] == "xydzs" else None)
            c.ok(roles == want, "object-roles", f"{roles} instead of {want}")
            if cluster:
                c.ok(out.cluster_cols == ["cluster_var_i", "cluster_var_j"], "object-clusters")
            c.ok(out.n_obs == rows and list(out.data.columns) == wc, "object-data")
            arrs = arrays_of_frame(out.data, m["roles"], kw)
            c.ok(eqv(out.x, arrs[0]) and eqv(out.y, arrs[1]) and eqv(out.d, arrs[2]), "object-values")
        if ref is None:
            ref, first_pos = arrs, pos
        else:
            okk = all(eqv(a, b) or (m["roles"] == "xydzs" and a is None) for a, b in zip(arrs, ref))
            c.ok(okk and len(arrs) == len(ref), "same-values", f"return type {t!r} carries other values for the same seed")
            c.ok(pos == first_pos, "same-stream", f"return type {t!r} consumes the random stream differently")
        rec.state(gen, str(sorted(kw.items(), key=str)), str(t), seed)
    rec.outcome(gen, round(float(np.nansum(ref[1])), 6))
    # another seed, other values; same seed again, same values
    o2 = call(gen, seed + 1000, dict(kw, return_type="array"))[0]
    c.ok(rows < 5 or not eqv(o2[1], ref[1]), "seed-ignored", "another seed gives the same data")
    o3 = call(gen, seed, dict(kw, return_type="array"))[0]
    c.ok(all(eqv(a, b) for a, b in zip(o3, ref)), "not-reproducible", "same seed, other data")
    if case["full"]:
        for t in bad_types(cluster):
            rec.step()
            try:
                with quiet():
                    fn_of(gen)(**{k: (np.array(v) if isinstance(v, tuple) else v) for k, v in kw.items()}, return_type=t)
                c.ok(False, "unknown-type-accepted", f"return type {t!r} accepted")
            except ValueError:
                pass
        if gen == "make_did_SZ2020":
            for t in (0, 7, "1", None):
                try:
                    with quiet():
                        fn_of(gen)(**dict(kw, dgp_type=t))
                    c.ok(False, "unknown-dgp-accepted", f"dgp type {t!r} accepted")
                except ValueError:
                    pass
    rec.trace()


def dict_case(case, rec):
    gen, base, n, seed = case["gen"], case["kw"], case["n"], case["seed"]
    m = DICTS[gen]
    kw = dict({k: v for k, v in base.items() if v is not None}, n_obs=n)
    c = Ctx(rec, case, gen, kw, n)
    out, dr, pos, same = call(gen, seed, kw)
    rec.step(3)
    c.ok(same, "global-state")
    c.ok(isinstance(out, dict), "dict-type")
    m["eq"](c, dr, out, kw)
    if "x" in out:
        p = kw.get("dim_x", {"make_confounded_plr_data": 4}.get(gen, 5))
        c.ok(out["x"].shape == (n, p) and out["y"].shape == (n,) and out["d"].shape == (n,), "shape")
        for k, v in out["oracle_values"].items():
            if isinstance(v, np.ndarray) and k not in ("level_bounds",):
                c.ok(len(v) == n, "oracle-rows", f"oracle value {k}")
    flat = lambda o: np.concatenate([np.asarray(o[q].values if hasattr(o[q], "values") and not callable(o[q].values) else o[q], dtype=float).ravel()
                                     for q in sorted(o) if q not in ("oracle_values", "treatment_effect")])
    again = call(gen, seed, kw)[0]
    c.ok(np.array_equal(flat(out), flat(again), equal_nan=True), "not-reproducible")
    other = call(gen, seed + 1000, kw)[0]
    if kw.get("random_state") is None:
        c.ok(not np.array_equal(flat(out), flat(other), equal_nan=True), "seed-ignored")
    else:
        c.ok(np.array_equal(flat(out), flat(other), equal_nan=True), "random-state-ignored", "random_state does not determine the data")
        o4 = call(gen, seed, dict(kw, random_state=kw["random_state"] + 1))[0]
        c.ok(not np.array_equal(flat(out), flat(o4), equal_nan=True), "random-state-ignored")
    rec.state(gen, str(sorted(kw.items(), key=str)), seed)
    rec.outcome(gen, round(float(np.nansum(flat(out))), 6))
    if gen == "make_irm_data_discrete_treatments" and case.get("bad"):
        for L in (1, 0, -1, 2.0, "3", None):
            try:
                with quiet():
                    fn_of(gen)(n_obs=n, n_levels=L)
                c.ok(False, "levels-accepted", f"n_levels={L!r} accepted")
            except ValueError:
                pass
    rec.trace()


# ------------------------------------------------------------------ remote data sets: the download is replaced by an own table
def fetch_case(case, rec):
    import pandas as pd
    import doubleml.datasets as D
    from doubleml import DoubleMLData

    r = np.random.RandomState(case["seed"])
    n = case["n"]
    c = Ctx(rec, case, case["gen"], {}, n)
    if case["gen"] == "fetch_bonus":
        cols = ["female", "black", "othrace", "q1", "q2", "q3", "q4", "q5", "q6", "agelt35", "agegt54", "durable", "nondurable", "lusd", "husd"]
        raw = pd.DataFrame({q: r.randint(0, 2, n) for q in cols})
        raw.insert(0, "abdt", np.arange(n) + 10)
        raw.insert(1, "tg", np.array([0, 4, 2, 4, 0, 6])[np.arange(n) % 6])
        raw["dep"] = (np.arange(n) // 2 + np.arange(n) // 6) % 3
        raw["inuidur1"] = r.randint(1, 52, n)
        X = ["female", "black", "othrace", "dep1", "dep2", "q2", "q3", "q4", "q5", "q6", "agelt35", "agegt54", "durable", "lusd", "husd"]
        patch, roles = "read_csv", ("inuidur1", ["tg"], X)
    else:
        raw = pd.DataFrame({q: r.randint(0, 9, n).astype(float) for q in ["net_tfa", "age", "inc", "educ", "fsize", "marr", "twoearn", "db", "pira", "hown", "e401", "p401", "tw"]})
        patch, roles = "read_stata", ("net_tfa", ["e401"], ["age", "inc", "educ", "fsize", "marr", "twoearn", "db", "pira", "hown"])
    saved = getattr(pd, patch)
    fn = getattr(D, case["gen"])
    try:
        setattr(pd, patch, lambda *a, **k: raw.copy())
        for poly in (False, True):
            if case["gen"] == "fetch_401K" and poly:
                try:
                    fn(polynomial_features=True)
                    c.ok(False, "polynomial-accepted")
                except NotImplementedError:
                    pass
                continue
            objsd = []
            for t in frames() + objs(False) + [None]:
                rec.step()
                with quiet():
                    out = fn(**({} if t is None else {"return_type": t}), polynomial_features=poly)
                df = out if isinstance(out, pd.DataFrame) else out.data
                c.ok(isinstance(out, pd.DataFrame) == (t in frames()), "type", f"{t!r}")
                objsd.append(df)
                if case["gen"] == "fetch_bonus":
                    sel = raw[raw["tg"].isin([0, 4])]
                    c.ok(len(df) == len(sel) and np.array_equal(df["tg"].values, (sel["tg"] == 4).astype(int).values), "treatment-groups", "controls and the pooled treatment group only")
                    c.ok(np.allclose(df["inuidur1"].values, np.log(sel["inuidur1"].values)), "log-duration")
                    c.ok(np.array_equal(df["dep1"].values, (sel["dep"] == 1).values * 1.0) and np.array_equal(df["dep2"].values, (sel["dep"] == 2).values * 1.0), "dependents-dummies")
                    for q in X:
                        if not q.startswith("dep"):
                            c.ok(np.array_equal(df[q].values.astype(float), sel[q].values.astype(float)), "covariates", q)
                    if poly:
                        for a_, b_ in ((0, 1), (3, 5), (14, 14)):
                            nm = f"{X[a_]} {X[b_]}" if a_ != b_ else f"{X[a_]}^2"
                            c.ok(nm in df and np.allclose(df[nm].values, df[X[a_]].values * df[X[b_]].values), "polynomials", nm)
                else:
                    c.ok(df.equals(raw), "values")
                if not isinstance(out, pd.DataFrame):
                    c.ok(isinstance(out, DoubleMLData) and out.y_col == roles[0] and out.d_cols == roles[1], "roles")
                    xs = out.x_cols
                    c.ok(xs == roles[2] if not poly else (xs[: len(roles[2])] == roles[2] and len(xs) == 15 + 15 * 16 // 2), "covariate-roles")
                    c.ok(out.z_cols is None and out.t_col is None and out.s_col is None, "extra-roles")
            c.ok(all(objsd[0].equals(o) for o in objsd), "same-values")
            for t in bad_types(False) + ["array", np.ndarray]:
                try:
                    with quiet():
                        fn(return_type=t, polynomial_features=poly)
                    c.ok(False, "unknown-type-accepted", f"{t!r}")
                except ValueError:
                    pass
        rec.state(case["gen"], n)
        rec.outcome(case["gen"], n)
        rec.trace()
    finally:
        setattr(pd, patch, saved)


def case_fn(case, rec):
    {"multi": multi_case, "dict": dict_case, "fetch": fetch_case}[case["kind"]](case, rec)


def cases(tier, seed):
    thor = tier == "thorough"
    for s in [seed] if not thor else [seed, seed + 7, seed + 21]:
        for gen, m in MULTI.items():
            ns = [1, 2, 7, 40] if not thor else [1, 2, 3, 7, 40, 200, 1000]
            if m["roles"] == "xydt":
                ns = [q for q in ns if q > 1]
            if m["roles"] == "cluster":
                ns = [(1, 3), (2, 5), (4, 3)] if not thor else [(1, 1), (1, 3), (3, 1), (2, 5), (5, 2), (4, 3), (9, 6)]
            for i, kw in enumerate(m["grid"]):
                for n in ns:
                    for p in m["dims"]:
                        if kw.get("dim_z", 0) > p:
                            continue
                        if not thor and len(m["grid"]) > 40 and i > 0 and (n != ns[-1] or p != m["dims"][-1]):
                            continue  # large parameter grids at the largest size only
                        yield dict(kind="multi", name=gen, gen=gen, kw=kw, n=n, p=p, seed=s, full=i == 0 or (thor and len(m["grid"]) < 40))
        for gen, m in DICTS.items():
            for i, kw in enumerate(m["grid"]):
                for n in ([7, 60] if not thor else [5, 7, 60, 300]):
                    if gen == "make_heterogeneous_data" and n == 5:
                        continue
                    yield dict(kind="dict", name=gen, gen=gen, kw=kw, n=n, seed=s, bad=i == 0)
        for gen in ("fetch_bonus", "fetch_401K"):
            for n in (12, 30, 61):
                yield dict(kind="fetch", name=gen, gen=gen, n=n, seed=s)


if __name__ == "__main__":
    Check("C24", case_fn, cases, rule="all generators x structural parameters (full product of two or three values per parameter) x sizes x numbers of covariates x return types x "
          "seeds, including every alias, unknown return types and a substituted download for the remote data sets; the noise implied by the structural equations must be among the "
          "random draws of the call", assumptions=["the legacy numpy random functions are wrapped to record the draws"]).main()
