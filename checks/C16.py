"""C16 sensitivity analysis: every combination of confounding strengths, correlations, levels and null hypotheses from finite alphabets on
(a) frameworks built from enumerated scores and bias bounds and (b) every fitted model with a sensitivity analysis, against the documented
formulas; robustness values against bisection; all histories of sensitivity calls; all covariate subsets for benchmarking against
manually fitted models; contour plots at their coordinates."""
import copy
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from scipy.special import ndtri

from mc import observe as O
from mc.catalog import catalog, make_df, smpls_from_labels
from mc.clusters import cluster_cols, cluster_frame, cluster_model, cluster_se, cluster_split
from mc.core import Check, close, scaled_close
from mc.spy import CTL, clf, lin

CFY = [0.0, 0.03, 0.4, 0.95]
CFD = [0.0, 0.03, 0.4, 0.95]
RHO = [0.0, 0.5, -0.5, 1.0, -1.0]
LEV = [0.3, 0.8, 0.95]


def strength(cy, cd, rho):
    return abs(rho) * np.sqrt(cy * cd / (1 - cd))


# ------------------------------------------------------------------ reference
class Ref:
    """bounds from estimates (p, r), scores (n, p, r), bias bounds (p, r) and their scores (n, p, r)"""

    def __init__(self, th, psi, mb, pmb, vs, cl=None):
        self.th, self.psi, self.mb, self.pmb, self.vs, self.cl = th, psi, mb, pmb, vs, cl

    def se(self, psi):
        n, p, r = psi.shape
        out = np.empty((p, r))
        for i, k in np.ndindex(p, r):
            v = psi[:, i, k]
            if self.cl is None:
                out[i, k] = np.sqrt(np.mean(v ** 2) / n)
            else:
                cv, sm, sc = self.cl
                out[i, k] = cluster_se(v, np.ones(n), cv, sm[k], sc[k])[0]
        return out

    def at(self, c, level):
        lo, up = self.th - c * self.mb, self.th + c * self.mb
        slo, sup = self.se(self.psi - c * self.pmb), self.se(self.psi + c * self.pmb)
        z = ndtri(level)

        def agg(t, s):
            m = np.median(t, axis=1)
            return m, np.sqrt(np.median(s ** 2 + (t - m[:, None]) ** 2 / self.vs[:, None], axis=1))

        tl, sl = agg(lo, slo)
        tu, su = agg(up, sup)
        return {"theta": {"lower": tl, "upper": tu}, "se": {"lower": sl, "upper": su},
                "ci": {"lower": np.median(lo - z * slo, axis=1), "upper": np.median(up + z * sup, axis=1)}}

    def curve(self, which, i, bound, rho, level, v):
        return self.at(strength(v, v, rho), level)[which][bound][i]

    def root(self, which, i, bound, rho, level, null):
        """the equal strength at which the bound is at the null; None when the curve is not monotone"""
        grid = np.concatenate([[0, 1e-4, 1e-3, 3e-3, 6e-3, 0.01, 0.02, 0.03], np.linspace(0.045, 0.99, 22), [0.996, 0.9999]])
        sgn = 1.0 if bound == "lower" else -1.0  # sgn * curve decreases
        f = lambda v: sgn * (self.curve(which, i, bound, rho, level, v) - null)
        vals = np.array([f(v) for v in grid])
        if np.any(np.diff(vals) > 0):
            return None
        if vals[0] <= 0:
            return 0.0
        if vals[-1] >= 0:
            return 0.9999
        j = int(np.argmax(vals <= 0))
        a, b = grid[j - 1], grid[j]
        for _ in range(40):
            mid = 0.5 * (a + b)
            if f(mid) > 0:
                a = mid
            else:
                b = mid
        return 0.5 * (a + b)


def check_params(rec, key, got, want, what):
    for a in ("theta", "se", "ci"):
        for b in ("lower", "upper"):
            g = np.asarray(got[a][b], dtype=float)
            if not scaled_close(g, want[a][b], rtol=1e-8):
                rec.fail(f"{key}:{a}-{b}", f"{what}: {a} {b} is {g}, expected {want[a][b]}")
                return False
    return True


def laws(rec, key, obj, grid, theta, what):
    """obj(cy, cd, rho, level) -> dict; monotonicity, containment, collapse"""
    R = {}
    tol = 1e-9 * (1 + np.max(np.abs(theta)))
    for g in grid:
        R[g] = obj(*g)
    for (cy, cd, rho, lv), d in R.items():
        w = f"{what} at {(cy, cd, rho, lv)}"
        lo, up = d["theta"]["lower"], d["theta"]["upper"]
        if np.any(lo > theta + tol) or np.any(up < theta - tol):
            rec.fail(f"{key}:contain", f"{w}: bounds {lo}, {up} do not contain {theta}")
            return None
        if cy * cd * rho == 0 and not (close(lo, theta, atol=tol) and close(up, theta, atol=tol)):
            rec.fail(f"{key}:collapse", f"{w}: bounds {lo}, {up} for {theta}")
            return None
        if lv >= 0.5 and (np.any(d["ci"]["lower"] > lo + tol) or np.any(d["ci"]["upper"] < up - tol)):
            rec.fail(f"{key}:ci-outside", f"{w}: limits {d['ci']} inside of the bounds {d['theta']}")
            return None
        for (cy2, cd2, rho2, lv2), e in R.items():
            if lv2 == lv and cy <= cy2 and cd <= cd2 and abs(rho) <= abs(rho2):
                if np.any(e["theta"]["lower"] > lo + tol) or np.any(e["theta"]["upper"] < up - tol):
                    rec.fail(f"{key}:monotone", f"{w} against {(cy2, cd2, rho2)}: {d['theta']} and {e['theta']}")
                    return None
    return R


def sens(m, cy, cd, rho, lv, null=0.0):
    m.sensitivity_analysis(cf_y=cy, cf_d=cd, rho=rho, level=lv, null_hypothesis=null)
    return m.sensitivity_params


# ------------------------------------------------------------------ synthetic frameworks
PSI = [np.array([1.0, -2.0, 0.5, 0.5]), np.array([0.1, 0.2, -0.3, 0.0]), np.array([3.0, -3.0, 3.0, -3.0])]


def mk(th, psi, mb, pmb):
    import doubleml as dml

    n = psi.shape[0]
    p, r = th.shape
    se = np.sqrt(np.mean(psi ** 2, axis=0) / n)
    vs = np.full(p, float(n))
    m = np.median(th, axis=1)
    s = np.sqrt(np.median(se ** 2 + (th - m[:, None]) ** 2 / vs[:, None], axis=1))
    return dml.DoubleMLFramework({"thetas": m, "ses": s, "all_thetas": th, "all_ses": se, "var_scaling_factors": vs, "scaled_psi": psi,
                                  "sensitivity_elements": {"max_bias": mb[None].copy(), "psi_max_bias": pmb.copy()}})


def table_case(case, rec):
    p, r = case["shape"]
    th = np.array(case["th"], dtype=float).reshape(p, r)
    mb = np.array(case["mb"], dtype=float).reshape(p, r)
    psi = np.stack([np.stack([PSI[(case["ps"] + i + k) % 3] for k in range(r)], axis=-1) for i in range(p)], axis=1)
    pmb = np.stack([np.stack([0.2 * np.roll(PSI[(case["pb"] + 2 * i + k) % 3], 1) for k in range(r)], axis=-1) for i in range(p)], axis=1)
    fw = mk(th, psi, mb, pmb)
    ref = Ref(th, psi, mb, pmb, np.full(p, 4.0))
    key = "framework"
    theta = np.median(th, axis=1)
    grid = list(itertools.product(CFY, CFD, RHO, LEV)) if case["grid"] else list(itertools.product([0.0, 0.4], [0.03, 0.4], [0.0, -0.5, 1.0], [0.8]))

    def run(cy, cd, rho, lv):
        rec.step()
        d = copy.deepcopy(sens(fw, cy, cd, rho, lv))
        check_params(rec, key, d, ref.at(strength(cy, cd, rho), lv), f"{case['th']} {case['mb']} at {(cy, cd, rho, lv)}")
        return d

    R = laws(rec, key, run, grid, theta, f"estimates {case['th']}, bias bounds {case['mb']}")
    rec.state("table", case["shape"], case["th"], case["mb"], case["ps"], case["pb"])
    if R:
        rec.outcome("table", repr([(k, v["theta"]["lower"].round(8).tolist()) for k, v in list(R.items())[:6]]))
    robust(rec, key, fw, ref, f"estimates {case['th']}, bias bounds {case['mb']}", case["rv"])
    rec.trace()


def robust(rec, key, fw, ref, what, rvs):
    theta = np.median(ref.th, axis=1)
    p = len(theta)
    sc = np.maximum(np.median(ref.mb, axis=1), 1e-6)
    for (mult, rho, lv) in rvs:
        null = theta + mult * sc
        vec = p > 1
        nh = null if vec else float(null[0])
        d = sens(fw, 0.03, 0.05, rho, lv, null=nh)
        inp = d["input"]
        if not (close(inp["null_hypothesis"], null) and inp["cf_y"] == 0.03 and inp["cf_d"] == 0.05 and inp["rho"] == rho and inp["level"] == lv):
            rec.fail(f"{key}:input", f"{what}: recorded input {inp}")
        if not check_params(rec, key, d, ref.at(strength(0.03, 0.05, rho), lv), f"{what} (null {nh})"):
            return
        for i in range(p):
            bound = "upper" if null[i] > theta[i] else "lower"
            for nm, which in (("rv", "theta"), ("rva", "ci")):
                rec.step()
                if rho == 0:
                    continue
                want = ref.root(which, i, bound, rho, lv, null[i])
                if want is None:
                    rec.note("not-monotone")
                    continue
                got = d[nm][i]
                if not abs(got - want) < 3e-4:
                    rec.fail(f"{key}:{nm}", f"{what}: {nm} of parameter {i} for null {null[i]:.5f} (rho {rho}, level {lv}) is {got}, expected {want}")
                    return
                rec.outcome(nm, round(float(got), 4))


RV_Q = [(m, rho, lv) for m in (0.0, 0.3, -0.3, 2.0, -2.0, 500.0) for rho, lv in ((1.0, 0.95), (-0.5, 0.8))]
RV_S = [(0.3, 1.0, 0.95), (-0.9, -0.5, 0.8)]


# ------------------------------------------------------------------ fitted models
def subject(name, seed, n_rep):
    """fitted model or framework, reference"""
    cat = catalog(n_rep)
    if name.startswith("APOS"):
        m, df = apos(seed, n_rep)
        if name == "APOS":
            return m, m.framework, None
        fw = m.causal_contrast([0]) if name == "APOS-contrast" else m.causal_contrast([2, 0])
        return fw, fw, None
    if name.endswith("@cluster") or name.endswith("@cluster2"):
        ways = 2 if name.endswith("2") else 1
        cfg = cat[name.split("@")[0]]
        df = cluster_frame(cfg, seed, blocks=4, ways=ways, per_cell=2 * cfg.per_cell if ways == 2 else None)
        cc = cluster_cols(ways)
        labs = [[0, 1, 0, 1], [0, 0, 1, 1]][:n_rep]
        splits = [cluster_split(df, cc, [lab] * ways) for lab in labs]
        m = cluster_model(cfg, df, cc, splits)
        CTL.reset(log=False)
        m.fit()
        return m, m.framework, (df[cc].to_numpy(), m.smpls, m.smpls_cluster)
    if name.endswith("*-2"):
        m, _, _ = subject(name[:-3], seed, n_rep)
        fw = -2 * m.framework
        return fw, fw, None
    cfg = cat[name]
    df = cfg.frame(seed)
    m = cfg.build(df, n_rep=n_rep)
    labs = [[0, 1, 0, 1], [0, 0, 1, 1], [0, 1, 2, 0]][:n_rep]
    if n_rep == 3:
        labs[2] = [0, 1, 1, 0]
    m.set_sample_splitting([smpls_from_labels(df.block, l) for l in labs])
    CTL.reset(log=False)
    m.fit()
    return m, m.framework, None


def apos(seed, n_rep, extra=0):
    import doubleml as dml

    df = make_df("lvl", 4, 2, seed, extra_x=extra)
    xc = [c for c in df.columns if c.startswith("X")]
    data = dml.DoubleMLData(df, "y", "d", x_cols=xc)
    m = dml.DoubleMLAPOS(data, ml_g=lin("ml_g", 1.0), ml_m=clf("ml_m", 2.0), treatment_levels=[2, 0, 1], n_folds=2, n_rep=n_rep,
                         draw_sample_splitting=False)
    m.set_sample_splitting([smpls_from_labels(df.block, l) for l in [[0, 1, 0, 1], [0, 0, 1, 1], [0, 1, 1, 0]][:n_rep]])
    CTL.reset(log=False)
    m.fit()
    return m, df


def model_case(case, rec):
    m, fw, cl = subject(case["cfg"], case["seed"], case["n_rep"])
    key = case["cfg"]
    if fw is m:
        se = fw.sensitivity_elements
        mb, pmb = np.asarray(se["max_bias"])[0], np.asarray(se["psi_max_bias"])
    else:
        # the bias bound and its score from the elements the model reports
        el = m.sensitivity_elements
        if case["cfg"] == "APOS":
            s2, n2 = [np.stack([np.asarray(mm.sensitivity_elements[k])[0, :, 0] for mm in m.modellist]) for k in ("sigma2", "nu2")]
            ps, pn = [np.stack([np.asarray(mm.sensitivity_elements[k])[:, :, 0] for mm in m.modellist], axis=1) for k in ("psi_sigma2", "psi_nu2")]
        else:
            s2, n2 = [np.asarray(el[k])[0].T for k in ("sigma2", "nu2")]
            ps, pn = [np.swapaxes(np.asarray(el[k]), 1, 2) for k in ("psi_sigma2", "psi_nu2")]
        mb = np.sqrt(s2 * n2)
        pmb = (s2 * pn + n2 * ps) / (2 * mb)
        got = fw.sensitivity_elements
        for nm, a, b in (("max_bias", np.asarray(got["max_bias"])[0], mb), ("psi_max_bias", got["psi_max_bias"], pmb),
                         ("sigma2", np.asarray(got["sigma2"])[0], s2), ("nu2", np.asarray(got["nu2"])[0], n2)):
            rec.expect(scaled_close(a, b), f"{key}:{nm}", f"framework {nm} is {np.ravel(a)[:4]}, from the elements {np.ravel(b)[:4]}")
    ref = Ref(np.asarray(fw.all_thetas), np.asarray(fw.scaled_psi), mb, pmb, np.asarray(fw.var_scaling_factors, dtype=float), cl)
    theta = np.asarray(fw.thetas)
    before = O.framework(fw)
    grid = list(itertools.product(CFY[:3] if not case["deep"] else CFY, CFD[1:3] if not case["deep"] else CFD,
                                  [0.0, -0.5, 1.0] if not case["deep"] else RHO, [0.95] if not case["deep"] else LEV))

    def run(cy, cd, rho, lv):
        rec.step()
        ret = m.sensitivity_analysis(cf_y=cy, cf_d=cd, rho=rho, level=lv)
        rec.expect(ret is m, f"{key}:self", "sensitivity_analysis does not return the object")
        d = copy.deepcopy(m.sensitivity_params)
        rec.expect(d is not None and O.diff(O.snap(fw.sensitivity_params), O.snap(d)) is None, f"{key}:params", "model and framework parameters differ")
        check_params(rec, key, d, ref.at(strength(cy, cd, rho), lv), f"{(cy, cd, rho, lv)}")
        return d

    R = laws(rec, key, run, grid, theta, key)
    rec.state("model", case["cfg"], case["n_rep"], case["seed"])
    if R:
        rec.outcome(key, repr([v["theta"]["lower"].round(8).tolist() for v in list(R.values())[-3:]]))
    robust(rec, key, m if fw is not m else fw, ref, key, RV_Q if case["deep"] else RV_S + [(0.0, 1.0, 0.95)])
    # defaults and summary
    m.sensitivity_analysis()
    check_params(rec, key, m.sensitivity_params, ref.at(strength(0.03, 0.03, 1.0), 0.95), "default parameters")
    txt = str(m.sensitivity_summary)
    import pandas as pd

    sp = m.sensitivity_params
    for frag in ("cf_y=0.03", "cf_d=0.03", "rho=1.0", "level=0.95"):
        rec.expect(frag in txt, f"{key}:summary-input", f"{frag} missing from the summary")
    names = fw.treatment_names
    t1 = str(pd.DataFrame(np.column_stack([sp["ci"]["lower"], sp["theta"]["lower"], theta, sp["theta"]["upper"], sp["ci"]["upper"]]), index=names,
                          columns=["CI lower", "theta lower", " theta", "theta upper", "CI upper"]))
    nums = lambda s: [float(t) for t in s.replace("\n", " ").split() if t.replace(".", "").replace("-", "").replace("e", "").replace("+", "").isdigit()]
    want, have = nums(t1), nums(txt.split("Bounds with CI")[1].split("Robustness")[0])
    rec.expect([v for v in want if v in have] == want, f"{key}:summary", f"summary {have} does not show {want}")
    # estimates, errors and scores are untouched
    after = O.framework(fw)
    for k in ("sensitivity_params", "sensitivity_summary"):
        before.pop(k), after.pop(k)
    d = O.diff(before, after)
    rec.expect(d is None, f"{key}:untouched", f"sensitivity analysis changed {d}")
    plots(rec, key, m, fw, ref, case)
    rec.trace()


def plots(rec, key, m, fw, ref, case):
    p = len(np.asarray(fw.thetas))
    sc = float(np.median(ref.mb)) + 1e-3
    combos = [("theta", 1.0, 0.95, 1), ("ci", 0.5, 0.8, -1)]
    if case["deep"]:
        combos = list(itertools.product(("theta", "ci"), (1.0, -0.5), (0.95, 0.8), (1, -1)))
    for j, (value, rho, lv, side) in enumerate(combos):
        idx = (p - 1) if j % 2 == 0 else 0
        null = float(fw.thetas[idx] + side * sc)
        bench = {"cf_y": [0.02, 0.2], "cf_d": [0.25, 0.01], "name": ["a", "b"]}
        m.sensitivity_analysis(cf_y=0.07, cf_d=0.02, rho=rho, level=lv, null_hypothesis=np.full(p, null))
        kw = dict(idx_treatment=idx, value=value, rho=rho, level=lv, null_hypothesis=null, benchmarks=bench, grid_bounds=(0.1, 0.3), grid_size=10)
        fig = m.sensitivity_plot(**kw)
        rec.step()
        bound = "upper" if side > 0 else "lower"
        tr = {t.name: t for t in fig.data}
        ct = tr["Contour"]
        X, Y, Z = np.asarray(ct.x, float), np.asarray(ct.y, float), np.asarray(ct.z, float)
        if not (np.isclose(X.max(), 0.1) and np.isclose(Y.max(), 0.3) and Z.shape == (len(Y), len(X)) and len(X) == 10):
            rec.fail("plot:grid", f"{key}: grid up to {X.max()}, {Y.max()} of shape {Z.shape}")
            return
        W = np.array([[ref.at(strength(y, x, rho), lv)[value][bound][idx] for x in X] for y in Y])
        if not scaled_close(Z, W):
            rec.fail("plot:contour", f"{key}: contour of {value} {bound} differs from the bounds at its coordinates, by up to {np.max(np.abs(Z - W))}"
                     f" (transposed: {np.max(np.abs(Z.T - W))})")
            return
        s = tr["Scenario"]
        rec.expect(list(s.x) == [0.02] and list(s.y) == [0.07], "plot:scenario", f"{key}: scenario at {s.x}, {s.y}")
        b = tr["Benchmarks"]
        wb = [ref.at(strength(y, x, rho), lv)[value][bound][idx] for y, x in zip(bench["cf_y"], bench["cf_d"])]
        rec.expect(list(b.x) == bench["cf_d"] and list(b.y) == bench["cf_y"] and scaled_close(np.ravel(b.customdata).astype(float), wb), "plot:benchmarks",
                   f"{key}: benchmarks at {b.x}, {b.y} with {b.customdata}, expected {wb}")


# ------------------------------------------------------------------ histories of the sensitivity parameters
def hist_case(case, rec):
    m0, _, _ = subject(case["cfg"], case["seed"], 2)
    A = dict(cf_y=0.1, cf_d=0.2, rho=1.0, level=0.9)
    B = dict(cf_y=0.4, cf_d=0.03, rho=-0.6, level=0.8, null_hypothesis=0.3)
    want = {}
    for nm, kw in (("A", A), ("B", B)):
        f = copy.deepcopy(m0)
        f.sensitivity_analysis(**kw)
        want[nm] = O.snap(f.sensitivity_params)
    ops = {"A": lambda m: m.sensitivity_analysis(**A), "B": lambda m: m.sensitivity_analysis(**B), "P": lambda m: m.sensitivity_plot(grid_size=10),
           "S": lambda m: m.sensitivity_summary, "X": lambda m: bad(m)}

    def bad(o):
        try:
            o.sensitivity_analysis(cf_y=0.1, cf_d=1.0)
        except ValueError:
            return
        rec.fail("history:accepts-one", "cf_d = 1 accepted")

    for seq in itertools.product(ops, repeat=case["depth"]):
        cur = None
        m = copy.deepcopy(m0)
        for o in seq:
            rec.step()
            if o == "P" and cur is None:
                try:
                    m.sensitivity_plot(grid_size=10)
                    rec.fail("history:plot", "plot with scenario without a sensitivity analysis")
                except ValueError:
                    pass
                continue
            ops[o](m)
            if o in "AB":
                cur = o
            rec.state(case["cfg"], seq[:1], cur, o)
        got = m.sensitivity_params
        d = O.diff(want[cur], O.snap(got)) if cur else (None if got is None else "parameters without analysis")
        rec.expect(d is None, "history:params", f"after {seq}: {d}")
        rec.trace()


# ------------------------------------------------------------------ benchmarking
def ref_gain(long, short, var_y):
    """elements: sigma2, nu2, theta each (p, r)"""
    r2l, r2s = 1 - long["sigma2"] / var_y, 1 - short["sigma2"] / var_y
    cy = np.clip((r2l - r2s) / (1 - r2l), 0, 1)
    rr = short["nu2"] / long["nu2"]
    cd = np.clip((1 - rr) / rr, 0, 1)
    dt = short["theta"] - long["theta"]
    vg, vr = short["sigma2"] - long["sigma2"], long["nu2"] - short["nu2"]
    rho = np.empty_like(dt)
    for ix in np.ndindex(dt.shape):
        a = abs(dt[ix]) / np.sqrt(vg[ix] * vr[ix]) if vg[ix] > 0 and vr[ix] > 0 else 1.0
        rho[ix] = min(a, 1.0) * np.sign(dt[ix])
    med = lambda v: np.median(v, axis=1)
    return {"cf_y": med(cy), "cf_d": med(cd), "rho": med(rho), "delta_theta": med(dt)}


def els(m):
    if hasattr(m, "modellist"):
        return {"sigma2": np.stack([np.asarray(q.sensitivity_elements["sigma2"])[0, :, 0] for q in m.modellist]),
                "nu2": np.stack([np.asarray(q.sensitivity_elements["nu2"])[0, :, 0] for q in m.modellist]),
                "theta": np.stack([q.all_coef[0] for q in m.modellist])}
    s = m.sensitivity_elements
    return {"sigma2": np.asarray(s["sigma2"])[0].T, "nu2": np.asarray(s["nu2"])[0].T, "theta": m.all_coef}


def bench_case(case, rec):
    import doubleml as dml

    name = case["cfg"]
    seed = case["seed"]
    extra = 2
    cl = None
    n_rep = case["n_rep"]
    labs = [[0, 1, 0, 1], [0, 0, 1, 1], [0, 1, 1, 0]][:n_rep]
    if name == "APOS":
        df = make_df("lvl", 4, 2, seed, extra_x=extra)
        sp = [smpls_from_labels(df.block, l) for l in labs]

        def make(xc):
            data = dml.DoubleMLData(df, "y", "d", x_cols=xc)
            m = dml.DoubleMLAPOS(data, ml_g=lin("ml_g", 1.0), ml_m=clf("ml_m", 2.0), treatment_levels=[2, 0, 1], n_folds=2, n_rep=n_rep,
                                 draw_sample_splitting=False)
            m.set_sample_splitting(sp)
            return m
        index = [2, 0, 1]
    elif name.endswith("@cluster"):
        cfg = catalog(1)[name.split("@")[0]]
        df = cluster_frame(cfg, seed, blocks=4, ways=1)
        df["X3"] = df["X1"] * df["X2"]
        cc = cluster_cols(1)
        sp = [cluster_split(df, cc, [l]) for l in labs]

        def make(xc):
            data = dml.DoubleMLClusterData(df, "y", list(cfg.treats), cluster_cols=cc, x_cols=xc, **cfg.data_kw)
            m = cfg.build(df, data=data, n_folds=2, n_rep=n_rep)
            m.set_sample_splitting([s[0] for s in sp], [s[1] for s in sp])
            return m
        index = list(cfg.treats)
    else:
        cfg = catalog(n_rep)[name]
        df = cfg.frame(seed, extra_x=extra)
        sp = [smpls_from_labels(df.block, l) for l in labs]

        def make(xc):
            data = dml.DoubleMLData(df, "y", list(cfg.treats), x_cols=xc, **cfg.data_kw)
            m = cfg.build(df, data=data, n_rep=n_rep)
            m.set_sample_splitting(sp)
            return m
        index = list(cfg.treats)
    xc = [c for c in df.columns if c.startswith("X")]
    CTL.reset(log=False)

    def prep(m):
        if case["mode"] == "params" and hasattr(m, "set_ml_nuisance_params"):
            for j, l in enumerate(m.params_names):
                for t in cfg.treats:
                    m.set_ml_nuisance_params(l, t, {"lam": 0.5 + j})
        return m

    fa = {"plain": None, "params": None, "ext": None, "fit_args": {"store_predictions": False, "store_models": True}}[case["mode"]]
    if case["mode"] == "ext":
        base = 0.35 + 0.3 * (np.arange(len(df)) % 7)[:, None] / 7 + 0.05 * np.arange(n_rep)[None, :]
        fa = {"external_predictions": {0: {"ml_m": base}} if name == "APOS" else {t: {"ml_m": base} for t in index}}
    long = prep(make(xc))
    long.fit(**({} if fa is None or case["mode"] == "fit_args" else fa))
    obs = O.composite if name == "APOS" else O.model
    before = obs(long)
    subsets = [list(s) for k in range(1, len(xc)) for s in itertools.combinations(xc, k)]
    if not case["deep"]:
        subsets = subsets[:4] + subsets[-3:] + [[xc[2], xc[0]]]
    for s in subsets:
        arg, arg0 = list(s), copy.deepcopy(fa)
        got = long.sensitivity_benchmark(arg, fit_args=fa) if fa is not None or case["mode"] == "plain" else long.sensitivity_benchmark(arg)
        rec.step()
        rec.state(name, tuple(s), case["mode"], n_rep)
        short = prep(make([c for c in xc if c not in s]))
        short.fit(**(fa or {}))
        rec.trace()
        want = ref_gain(els(long), els(short), np.var(df["y"].to_numpy()))
        if list(got.index) != index:
            rec.fail(f"benchmark:{name}:index", f"{s}: rows {list(got.index)}")
        for k in ("cf_y", "cf_d", "rho", "delta_theta"):
            if k not in got.columns or not close(got[k].to_numpy(float), want[k], rtol=1e-6, atol=1e-7):
                rec.fail(f"benchmark:{name}:{k}", f"{s} ({case['mode']}): {k} is {got.get(k)}, from the manual model {want[k]}")
                return
        gs = dml.utils.gain_statistics(long, short)
        for k in want:
            rec.expect(close(np.ravel(gs[k]), want[k], rtol=1e-6, atol=1e-7), f"gain:{name}:{k}", f"{s}: {gs[k]} against {want[k]}")
        d = O.diff(before, obs(long))
        if d is not None:
            rec.fail(f"benchmark:{name}:changed", f"{s}: benchmarking changed {d}")
            return
        rec.expect(arg == list(s) and O.diff(O.snap(arg0), O.snap(fa)) is None, f"benchmark:{name}:args", f"{s}: arguments modified")
        rec.outcome(name, got.to_numpy(float).round(7).tolist())


def case_fn(case, rec):
    {"table": table_case, "model": model_case, "hist": hist_case, "bench": bench_case}[case["kind"]](case, rec)


def sens_names():
    return [nm for nm, c in catalog(1).items() if c.sens]


def cases(tier, seed):
    thor = tier == "thorough"
    vals = [-1.0, 0.0, 2.0]
    mbs = [0.5, 2.0]
    # all estimates x bias bounds for one parameter with one or two repetitions and for two parameters
    for shape in ((1, 1), (1, 2), (2, 1)) + (((1, 3), (2, 2)) if thor else ()):
        k = shape[0] * shape[1]
        for j, th in enumerate(itertools.product(vals, repeat=k)):
            for l, mb in enumerate(itertools.product(mbs, repeat=k)):
                if k > 3 and (j + l) % 5:
                    continue
                for ps, pb in itertools.product(range(3), range(3)) if (k == 1 or thor) else [((j + l) % 3, (j // 3 + l) % 3)]:
                    yield dict(kind="table", shape=list(shape), th=list(th), mb=list(mb), ps=ps, pb=pb, grid=(k == 1 and thor) or (k == 1 and ps == pb),
                               rv=RV_Q if thor or (k == 1 and ps == pb) else RV_S)
    for p, r in ((4, 5), (1, 9), (6, 3), (3, 4)):
        for j in range(6):
            yield dict(kind="table", shape=[p, r], th=[vals[(j + i + i // 4) % 3] + 0.1 * (i % 4) for i in range(p * r)], mb=[(0.5, 2.0, 1.0)[(j // 2 + i * i) % 3] for i in range(p * r)],
                       ps=j % 3, pb=(j + 1) % 3, grid=False, rv=RV_S)
    names = sens_names() + ["PLR-po@cluster", "IRM-ate@cluster", "PLR-po@cluster2", "APOS", "APOS-contrast", "APOS-contrast2", "PLR-po*-2", "IRM-ate*-2"]
    for nm in names:
        for n_rep in ((2,) if "cluster" in nm else (3,)) if not thor else (1, 2, 3):
            if "cluster" in nm and n_rep == 3:
                continue
            for s in (seed,) if not thor else (seed, seed + 7):
                yield dict(kind="model", cfg=nm, name=nm, n_rep=n_rep, seed=s, deep=thor)
    for nm in ["PLR-po", "IRM-ate", "APOS"]:
        yield dict(kind="hist", cfg=nm, name=nm, seed=seed, depth=3 if not thor else 4)
    for nm in sens_names() + ["APOS", "PLR-po@cluster", "IRM-ate@cluster"]:
        for mode in ("plain", "fit_args", "params", "ext"):
            if mode == "params" and nm == "APOS":
                continue
            if mode == "ext" and nm != "APOS" and not catalog(1)[nm.split("@")[0]].roles.get("ml_m"):
                continue
            yield dict(kind="bench", cfg=nm, name=nm, mode=mode, n_rep=3, seed=seed, deep=thor or mode == "plain" and nm in ("PLR-po", "APOS"))


if __name__ == "__main__":
    Check("C16", case_fn, cases, rule="frameworks from all assignments of estimates and bias bounds over small alphabets x score patterns x grids of "
          "strengths, correlations, levels and null hypotheses; every model with a sensitivity analysis (also clustered, composite, contrasts, multiples); "
          "all histories of sensitivity calls to depth 3; all covariate subsets for benchmarking",
          assumptions=["robustness values are compared within 3e-4, the accuracy of the library's bounded search",
                       "robustness values are not decided where the confidence limit is not monotone in the strength"]).main()
