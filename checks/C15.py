"""C15 inference: every pattern of estimates/errors over small alphabets, every bootstrap pattern over small alphabets (injected
through the stored bootstrap statistics), solved-for bootstrap weights, and every history of fit/split/bootstrap operations on
models and composites; intervals, tests, joint quantiles and step-down p-values are compared with their definitions."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from scipy.special import ndtr, ndtri

from mc import observe as O
from mc.catalog import catalog, idmap, make_df, rng_for, smpls_from_labels
from mc.core import Check, close, scaled_close
from mc.spy import CTL, clf, lin

LEVELS = [0.01, 0.5, 0.8, 0.9, 0.95, 0.99, 0.999]


def mkfw(th, se, n=4, seed=0, psi=None):
    import doubleml as dml

    th, se = np.array(th, dtype=float), np.array(se, dtype=float)
    p, r = th.shape
    if psi is None:
        psi = rng_for(seed, "c15", n, p, r).randn(n, p, r)
    vs = np.full(p, float(psi.shape[0]))
    m = np.median(th, axis=1)
    s = np.sqrt(np.median(se ** 2 + (th - m[:, None]) ** 2 / vs[:, None], axis=1))
    return dml.DoubleMLFramework({"thetas": m, "ses": s, "all_thetas": th, "all_ses": se, "var_scaling_factors": vs, "scaled_psi": psi})


# ------------------------------------------------------------------ references
def ref_ci(all_th, all_se, level):
    z = ndtri(1 - (1 - level) / 2)
    return np.column_stack([np.median(all_th - z * all_se, axis=1), np.median(all_th + z * all_se, axis=1)])


def ref_joint(all_th, all_se, boot, level):
    crit = []
    for r in range(boot.shape[2]):
        mx = np.sort(np.max(np.abs(boot[:, :, r]), axis=1))
        h_ = (len(mx) - 1) * level
        lo = int(np.floor(h_))
        hi = min(lo + 1, len(mx) - 1)
        crit.append(mx[lo] + (h_ - lo) * (mx[hi] - mx[lo]))
    crit = np.array(crit)
    return np.column_stack([np.median(all_th - all_se * crit, axis=1), np.median(all_th + all_se * crit, axis=1)])


def ref_rw(t, boot):
    """Romano-Wolf step-down for one repetition"""
    K = len(t)
    at = np.abs(t)
    order = sorted(range(K), key=lambda i: -at[i])
    p = np.empty(K)
    cur = 0.0
    for j, i in enumerate(order):
        mx = np.max(np.abs(boot[:, order[j:]]), axis=1)
        cur = max(cur, np.mean(mx >= at[i]))
        p[i] = cur
    return p


def ref_adjust(p, method):
    K = len(p)
    if method == "bonferroni":
        return np.minimum(1, p * K)
    o = np.argsort(p)
    out = np.empty(K)
    if method == "holm":
        cur = 0.0
        for j, i in enumerate(o):
            cur = max(cur, min(1.0, p[i] * (K - j)))
            out[i] = cur
        return out
    if method == "sidak":
        return 1 - (1 - p) ** K
    if method == "fdr_bh":
        cur = 1.0
        for j in range(K - 1, -1, -1):
            i = o[j]
            cur = min(cur, p[i] * K / (j + 1))
            out[i] = cur
        return out
    raise AssertionError(method)


def check_point(rec, key, fw, what):
    th, se = fw.all_thetas, fw.all_ses
    t = th / se
    pv = 2 * ndtr(-np.abs(t))
    ok = True

    def exp(got, want, nm):
        nonlocal ok
        if not (np.shape(got) == np.shape(want) and np.allclose(np.asarray(got, float), want, rtol=1e-7, atol=1e-12, equal_nan=True)):
            rec.fail(f"{key}:{nm}", f"{what}: {nm} is {np.ravel(got)[:4]}, expected {np.ravel(want)[:4]}")
            ok = False

    exp(fw.all_t_stats, t, "all_t_stats")
    exp(fw.all_pvals, pv, "all_pvals")
    exp(fw.t_stats, fw.thetas / fw.ses, "t_stats")
    exp(fw.pvals, np.median(pv, axis=1), "pvals")
    prev = None
    for lv in LEVELS:
        ci = fw.confint(level=lv)
        exp(ci.to_numpy(), ref_ci(th, se, lv), f"confint")
        a = (1 - lv) / 2
        if list(ci.columns) != [f"{a * 100:.1f} %", f"{(1 - a) * 100:.1f} %"]:
            rec.fail(f"{key}:labels", f"{what}: columns {list(ci.columns)} for level {lv}")
            ok = False
        v = ci.to_numpy()
        if np.any(v[:, 0] > fw.thetas + 1e-12) or np.any(v[:, 1] < fw.thetas - 1e-12):
            rec.fail(f"{key}:contains", f"{what}: interval does not contain the estimate")
            ok = False
        if prev is not None and (np.any(v[:, 0] > prev[:, 0] + 1e-12) or np.any(v[:, 1] < prev[:, 1] - 1e-12)):
            rec.fail(f"{key}:nested", f"{what}: intervals do not grow with the level")
            ok = False
        prev = v
    s = fw.summary
    exp(s.to_numpy(), np.column_stack([fw.thetas, fw.ses, fw.thetas / fw.ses, np.median(pv, axis=1), ref_ci(th, se, 0.95)]), "summary")
    for method in ("bonferroni", "holm", "sidak", "fdr_bh"):
        df, al = fw.p_adjust(method)
        want = np.column_stack([ref_adjust(pv[:, r], method) for r in range(pv.shape[1])])
        exp(al, want, f"p_adjust:{method}")
        exp(df.to_numpy(), np.column_stack([fw.thetas, np.median(want, axis=1)]), f"p_adjust-table:{method}")
    return ok


def check_joint(rec, key, fw, what, levels=LEVELS):
    boot = fw.boot_t_stat
    th, se = fw.all_thetas, fw.all_ses
    prev = None
    for lv in levels:
        v = fw.confint(joint=True, level=lv).to_numpy()
        if not np.allclose(v, ref_joint(th, se, boot, lv), rtol=1e-9, atol=1e-12):
            rec.fail(f"{key}:joint", f"{what}: joint interval at {lv} is {v.ravel()[:4]}, expected {ref_joint(th, se, boot, lv).ravel()[:4]}")
            return False
        if prev is not None and (np.any(v[:, 0] > prev[:, 0] + 1e-12) or np.any(v[:, 1] < prev[:, 1] - 1e-12)):
            rec.fail(f"{key}:nested-joint", f"{what}: joint intervals do not grow with the level")
            return False
        prev = v
    t = th / se
    for name in ("romano-wolf", "rw", "RW", "Romano-Wolf") if key == "boot" else ("romano-wolf",):
        df, al = fw.p_adjust(name)
        want = np.column_stack([ref_rw(t[:, r], boot[:, :, r]) for r in range(t.shape[1])])
        if not np.allclose(al, want, atol=1e-12):
            rec.fail(f"{key}:romano-wolf", f"{what}: p-values {al.ravel()[:4]}, expected {want.ravel()[:4]} (t={t.ravel()[:4]})")
            return False
        if not np.allclose(df.to_numpy(), np.column_stack([fw.thetas, np.median(want, axis=1)])):
            rec.fail(f"{key}:romano-wolf-table", f"{what}: {df}")
            return False
    for r in range(t.shape[1]):
        at = np.abs(t[:, r])
        for i, j in itertools.combinations(range(len(at)), 2):
            if (at[i] - at[j]) * (al[i, r] - al[j, r]) > 1e-12:
                rec.fail(f"{key}:monotone", f"{what}: the adjusted p-values are not monotone in the statistics")
                return False
        single = (np.abs(boot[:, :, r]) >= at).mean(axis=0)
        if np.any(al[:, r] < single - 1e-12) or (len(at) == 1 and not np.allclose(al[:, r], single)):
            rec.fail(f"{key}:single-step", f"{what}: adjusted p-values below those of the single hypotheses")
            return False
    return True


# ------------------------------------------------------------------ cases
def point_case(case, rec):
    p, r = case["p"], case["r"]
    A = [(-2.0, 0.7), (0.0, 1.3), (0.4, 0.2), (3.1, 1.0)][: case["alpha"]]
    combos = itertools.product(A, repeat=p * r) if p * r <= 9 else [tuple(A[(a + b * i + (i // c)) % len(A)] for i in range(p * r)) for a in range(4) for b in (1, 2, 3) for c in (3, 5)]
    for combo in combos:
        th = np.array([c[0] for c in combo]).reshape(p, r)
        se = np.array([c[1] for c in combo]).reshape(p, r)
        fw = mkfw(th, se, seed=case["seed"])
        rec.state("point", combo, p)
        rec.step(len(LEVELS))
        rec.trace()
        if not check_point(rec, "point", fw, f"thetas {th.tolist()} ses {se.tolist()}"):
            return
        if case["named"]:
            fw.treatment_names = [f"n{i}" for i in range(p)]
            ok = list(fw.confint().index) == fw.treatment_names and list(fw.summary.index) == fw.treatment_names
            ok = ok and np.allclose(fw.confint().to_numpy(), ref_ci(th, se, 0.95)) and not fw.summary.isna().any().any()
            rec.expect(ok, "point:names", "names of the parameters are not used in the tables")
        rec.outcome(np.round(fw.pvals, 6).tolist())


def inject_case(case, rec):
    p, r, B = case["p"], case["r"], case["B"]
    alphabet = [0.3, -1.1, 2.2][: case["alpha"]]
    tv = [0.2, -0.7, 1.6, 2.9]
    se = np.linspace(0.5, 1.4, p * r).reshape(p, r)
    if case.get("ties"):  # statistics that equal a bootstrapped maximum exactly, or are zero
        alphabet, tv, se = [0.0, 1.0, -2.0][: case["alpha"]], [0.0, -1.0, 2.0], np.ones((p, r))
    np.random.seed(0)
    for t in itertools.product(tv, repeat=p):
        th = np.repeat(np.array(t)[:, None], r, axis=1) * se
        if r > 1 and not case.get("ties"):
            th = th * np.array([1.0, 0.9, 1.2])[:r]
        fw = mkfw(th, se, seed=case["seed"])
        fw.bootstrap(n_rep_boot=B)
        for pat in itertools.product(alphabet, repeat=B * p):
            base = np.array(pat).reshape(B, p)
            full = np.stack([np.roll(base, k, axis=0 if k < 2 else 1) * (1 + 0.05 * k) for k in range(r)], axis=2)
            if case.get("ties"):
                full = np.stack([np.roll(base, k, axis=0) for k in range(r)], axis=2)
            fw.boot_t_stat[:] = full
            if not np.array_equal(fw.boot_t_stat, full):
                rec.note("no-injection")
                return
            rec.state("inject", t, pat)
            rec.step()
            rec.trace()
            if not check_joint(rec, "inject", fw, f"t {t} bootstrap {pat}", levels=(0.3, 0.9)):
                return
        rec.outcome(t)


def boot_case(case, rec):
    """the bootstrap statistics determine the weights when there are at least as many parameters as observations"""
    n, p, r, method = case.get("n", 3), 5, case["r"], case["method"]
    rng = rng_for(case["seed"], "boot")
    psi = rng.randn(n, p, r)
    sel = np.arange(n)
    if n > p:  # larger samples: each parameter depends on one observation, whose weight it reveals
        sel = np.array([0, 1, n // 2, n - 2, n - 1])
        keep = psi[sel, np.arange(p)]
        psi[:] = 0.0
        psi[sel, np.arange(p)] = keep
    fw = mkfw(rng.randn(p, r), 0.2 + rng.rand(p, r), psi=psi)
    W = {}
    for B in case["B"]:
        np.random.seed(case["seed"])
        ret = fw.bootstrap(method=method, n_rep_boot=B)
        what = f"{method} B={B} r={r}"
        rec.state("boot", method, B, r)
        rec.step()
        rec.trace()
        rec.expect(ret is fw, "boot:return", "bootstrap() does not return the object")
        rec.expect(fw.n_rep_boot == B and fw.boot_method == method, "boot:attributes", f"{what}: {fw.n_rep_boot} {fw.boot_method}")
        b = fw.boot_t_stat
        if b.shape != (B, p, r):
            rec.fail("boot:shape", f"{what}: shape {b.shape}")
            return
        w = []
        for i in range(r):
            A = psi[:, :, i] / (n * fw.all_ses[:, i])
            wi = b[:, :, i] @ np.linalg.pinv(A)
            if not np.allclose(wi @ A, b[:, :, i], atol=1e-8):
                rec.fail("boot:shared", f"{what}: the statistics are not common weights times standardised scores over errors")
                return
            w.append(wi[:, sel])
        W[B] = np.stack(w)
        if not check_joint(rec, "boot", fw, what):
            return
        np.random.seed(case["seed"])
        fw.bootstrap(method=method, n_rep_boot=B)
        rec.expect(np.array_equal(fw.boot_t_stat, b), "boot:reproducible", f"{what}: the same seed gives another bootstrap")
        fw.bootstrap(method=method, n_rep_boot=B)
        rec.expect(not np.array_equal(fw.boot_t_stat, b), "boot:redraw", f"{what}: bootstrapping again does not draw new weights")
    big = W[max(W)]
    x = big.reshape(-1)
    N = len(x)
    third = {"normal": 0.0, "Bayes": 2.0, "wild": 1.0}[method]
    tol = 7 / np.sqrt(N)
    rec.expect(abs(x.mean()) < tol, "boot:mean", f"{method}: mean of the weights {x.mean()}")
    rec.expect(abs(x.var() - 1) < 3 * tol, "boot:variance", f"{method}: variance of the weights {x.var()}")
    rec.expect(abs((x ** 3).mean() - third) < 14 * tol, "boot:third-moment", f"{method}: third moment {(x ** 3).mean()}")
    if method == "Bayes":
        rec.expect(x.min() >= -1 - 1e-9, "boot:support", f"{method}: weight {x.min()}")
    cols = np.concatenate([big[i] for i in range(r)], axis=1)  # B x (r*n): independent columns
    c = np.corrcoef(cols.T) - np.eye(cols.shape[1])
    rec.expect(np.abs(c).max() < 7 / np.sqrt(cols.shape[0]), "boot:independent", f"{method}: weights of observations or repetitions are correlated {np.abs(c).max()}")
    lag = np.corrcoef(cols[:-1].ravel(), cols[1:].ravel())[0, 1]
    rec.expect(abs(lag) < tol, "boot:independent-draws", f"{method}: bootstrap draws are correlated {lag}")
    rec.expect(len(np.unique(np.round(x, 9))) > 0.99 * N, "boot:distinct", "repeated weights")
    before = O.framework(fw)
    for m_, b_, ex in (("Normal", 5, ValueError), ("bayes", 5, ValueError), (None, 5, ValueError), (1, 5, ValueError), ("normal", 0, ValueError),
                       ("normal", -3, ValueError), ("normal", 5.0, TypeError), ("wild", "5", TypeError), ("wild", None, TypeError)):
        try:
            fw.bootstrap(method=m_, n_rep_boot=b_)
            rec.fail("boot:accepted", f"bootstrap({m_}, {b_}) accepted")
        except ex:
            rec.expect(O.diff(O.framework(fw), before) is None, "boot:reject-state", f"rejected bootstrap({m_}, {b_}) changed the object")
    for kw, ex in ((dict(level=1.0), ValueError), (dict(level=0.0), ValueError), (dict(level=-0.1), ValueError), (dict(level=1), TypeError),
                   (dict(level="0.9"), TypeError), (dict(joint=1), TypeError), (dict(joint=None), TypeError), (dict(joint=True, level=2.0), ValueError)):
        try:
            fw.confint(**kw)
            rec.fail("confint:accepted", f"confint({kw}) accepted")
        except ex:
            pass
    for m_, ex in ((1, TypeError), (None, TypeError), ("nope", ValueError)):
        try:
            fw.p_adjust(m_)
            rec.fail("p_adjust:accepted", f"p_adjust({m_}) accepted")
        except ex:
            pass


def subject(case):
    """(fresh object, splittings A and B, expected index)"""
    import doubleml as dml

    nm, seed = case["name"], case["seed"]
    reps = [[0, 1, 0, 1], [0, 0, 1, 1]]
    if nm in ("APOS", "QTE", "CVaR"):
        df = make_df("lvl" if nm == "APOS" else "bin", 4, 2 if nm == "APOS" else 4, seed)
        data = dml.DoubleMLData(df, "y", "d", x_cols=["X1", "X2"])
        if nm == "APOS":
            m = dml.DoubleMLAPOS(data, ml_g=lin("g"), ml_m=clf("m"), treatment_levels=[2, 0, 1], n_folds=2, n_rep=2, draw_sample_splitting=False)
            idx = [2, 0, 1]
        else:
            m = dml.DoubleMLQTE(data, ml_g=clf("g") if nm == "QTE" else lin("g"), ml_m=clf("m"), quantiles=[0.6, 0.4], score="PQ" if nm == "QTE" else "CVaR",
                                n_folds=2, n_rep=2, draw_sample_splitting=False)
            idx = [0.6, 0.4]
    else:
        cfg = catalog(2)[nm]
        df = cfg.frame(seed, blocks=4)
        m = cfg.build(df, n_rep=2)
        idx = cfg.treats
    A = [smpls_from_labels(df.block, l) for l in reps]
    B = [smpls_from_labels(df.block, [0, 1, 1, 0])]
    m.set_sample_splitting(A)
    CTL.reset(idmap(df), log=False)
    return m, A, B, idx


def hist_case(case, rec):
    ops = ["F", "N", "W", "S", "D"]
    seen = set()
    for tail in itertools.product(ops, repeat=case["depth"] - 1):
        hist = case["first"] + "".join(tail)
        m, A, B, idx = subject(case)
        fitted, boot = False, None
        np.random.seed(7)
        for k, o in enumerate(hist):
            try:
                if o == "F":
                    m.fit()
                    fitted, boot = True, None
                elif o == "S":
                    m.set_sample_splitting(B if k % 2 else A)
                    fitted, boot = False, None
                elif o == "D":
                    m.draw_sample_splitting()
                    break  # what is reported between drawing a splitting and the next fit is unspecified
                else:
                    method = "normal" if o == "N" else "wild"
                    m.bootstrap(method=method, n_rep_boot=4 + k)
                    if not fitted:
                        rec.fail("hist:unfitted", f"{case['name']} {hist[:k + 1]}: bootstrap() without estimates accepted")
                        return
                    boot = (method, 4 + k)
            except ValueError:
                if o in "NW" and not fitted:
                    rec.note("bootstrap-before-fit")
                else:
                    raise
            rec.step()
            if hist[: k + 1] in seen:
                continue
            seen.add(hist[: k + 1])
            rec.state(case["name"], hist[: k + 1])
            what = f"{case['name']} {hist[:k + 1]}"
            if not observe(rec, m, fitted, boot, idx, what):
                return
        rec.trace()
        rec.outcome(case["name"], fitted, boot)


def observe(rec, m, fitted, boot, idx, what):
    calls = [("confint", lambda: m.confint()), ("p_adjust", lambda: m.p_adjust("holm")), ("joint", lambda: m.confint(joint=True)),
             ("rw", lambda: m.p_adjust())]
    if not hasattr(m, "p_adjust"):
        calls = [c for c in calls if c[0] in ("confint", "joint")]
    for nm, fn in calls:
        need = fitted if nm in ("confint", "p_adjust") else boot is not None
        try:
            out = fn()
            if not need:
                rec.fail(f"hist:{nm}-stale", f"{what}: {nm} succeeded without current estimates/bootstrap")
                return False
            if list(out.index) != list(idx):
                rec.fail(f"hist:{nm}-index", f"{what}: index {list(out.index)} instead of {idx}")
                return False
            fw = m.framework
            if nm == "confint":
                want = ref_ci(fw.all_thetas, fw.all_ses, 0.95)
            elif nm == "joint":
                want = ref_joint(fw.all_thetas, fw.all_ses, fw.boot_t_stat, 0.95)
            elif nm == "rw":
                want = np.column_stack([m.coef, np.median(np.column_stack([ref_rw(fw.all_t_stats[:, r], fw.boot_t_stat[:, :, r]) for r in range(fw.n_rep)]), axis=1)])
            else:
                want = np.column_stack([m.coef, np.median(np.column_stack([ref_adjust(fw.all_pvals[:, r], "holm") for r in range(fw.n_rep)]), axis=1)])
            if not np.allclose(out.to_numpy(), want, rtol=1e-8, atol=1e-12):
                rec.fail(f"hist:{nm}", f"{what}: {nm} gives {out.to_numpy().ravel()[:4]}, expected {want.ravel()[:4]}")
                return False
        except ValueError:
            if need:
                raise
    if boot is not None:
        if (m.boot_method, m.n_rep_boot) != boot or m.boot_t_stat.shape != (boot[1], len(idx), m.framework.n_rep):
            rec.fail("hist:attributes", f"{what}: {m.boot_method} {m.n_rep_boot} {m.boot_t_stat.shape}")
            return False
        fw = m.framework
        if not np.all(np.isfinite(fw.boot_t_stat)):
            rec.fail("hist:boot-finite", f"{what}: bootstrap statistics not finite")
            return False
    elif m.boot_t_stat is not None or m.boot_method is not None or m.n_rep_boot is not None:
        rec.fail("hist:stale-boot", f"{what}: bootstrap statistics without a bootstrap of the current estimates")
        return False
    if fitted:
        fw = m.framework
        # models report the p-value of the aggregated statistic, frameworks and composites the median over the repetitions
        pv = np.median(2 * ndtr(-np.abs(fw.all_thetas / fw.all_ses)), axis=1)
        if not hasattr(m, "modellist") and not hasattr(m, "modellist_0"):
            pv = 2 * ndtr(-np.abs(fw.thetas / fw.ses))
        ok = np.allclose(m.t_stat, m.coef / m.se) and np.allclose(m.pval, pv) and np.allclose(m.coef, fw.thetas) and np.allclose(m.se, fw.ses)
        s = m.summary
        ok = ok and list(s.index) == list(idx) and np.allclose(s.to_numpy(), np.column_stack([m.coef, m.se, m.t_stat, pv, ref_ci(fw.all_thetas, fw.all_ses, 0.95)]))
        if not ok:
            rec.fail("hist:summary", f"{what}: t-statistics, p-values or summary do not match the estimates")
            return False
    return True


def model_boot_case(case, rec):
    """weights of a model's bootstrap solved from its statistics: n_obs stacked copies of the same effects"""
    import doubleml as dml

    m, A, B, idx = subject(case)
    m.fit()
    fw = m.framework
    n, p, r = fw.scaled_psi.shape
    np.random.seed(case["seed"])
    m.bootstrap(method=case["method"], n_rep_boot=n + 40)
    for i in range(r):
        S = fw.scaled_psi[:, :, i] / (n * fw.all_ses[:, i])
        b = m.boot_t_stat[:, :, i]
        # covariance of the statistics over draws estimates S'S
        rec.expect(b.shape == (n + 40, p), "model-boot:shape", f"{case['name']}: {b.shape}")
        want = S.T @ S
        got = b.T @ b / len(b)
        sc = np.sqrt(np.outer(np.diag(want), np.diag(want)))
        rec.expect(np.all(np.abs(got - want) < 9 * np.sqrt(3.0 / len(b)) * sc), "model-boot:cov", f"{case['name']}: covariance of the bootstrap statistics")
    rec.state("model-boot", case["name"])
    rec.trace()
    rec.step()
    # duplicated effects must share their statistics
    d = dml.concat([fw, fw])
    d.bootstrap(method=case["method"], n_rep_boot=5)
    rec.expect(np.allclose(d.boot_t_stat[:, :p], d.boot_t_stat[:, p:]), "model-boot:shared", "copies of an effect get different bootstrap statistics")
    check_point(rec, f"model:{case['name']}", fw, case["name"])


def case_fn(case, rec):
    {"point": point_case, "inject": inject_case, "boot": boot_case, "hist": hist_case, "mboot": model_boot_case}[case["kind"]](case, rec)


def cases(tier, seed):
    thor = tier == "thorough"
    for p, r in itertools.product((1, 2, 3), (1, 2, 3, 4)):
        if p * r <= 4 or (thor and p * r <= 6):
            yield dict(kind="point", p=p, r=r, alpha=4 if p * r <= 3 else (3 if p * r <= 4 and thor else 2), named=r % 2 == 0, seed=seed)
    for p, r in ((6, 7), (1, 11), (12, 4), (4, 5)):
        yield dict(kind="point", p=p, r=r, alpha=4, named=True, seed=seed)
    for p, B, r in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3)):
        if p * B <= (6 if thor else 4):
            yield dict(kind="inject", p=p, B=B, r=r, alpha=3, seed=seed)
        elif p * B <= 6:
            yield dict(kind="inject", p=p, B=B, r=r, alpha=2, seed=seed)
        if p * B <= 4:
            yield dict(kind="inject", p=p, B=B, r=r, alpha=3, ties=True, seed=seed)
    for method, r in itertools.product(("normal", "Bayes", "wild"), (1, 2, 3)):
        yield dict(kind="boot", method=method, r=r, B=[1, 2, 7, 6000], seed=seed)
        for n in (260, 2100):
            if r <= 2:
                yield dict(kind="boot", method=method, r=r, n=n, B=[1, 3000 if n < 1000 else 900], seed=seed)
    subs = ["PLR-2d", "PLR-po", "IRM-ate", "PLIV-po", "PQ-1", "LPQ-1", "IIVM", "CVaR-1", "SSM-mar", "DID-obs", "DIDCS-obs", "APO-1", "APOS", "QTE", "CVaR"]
    for nm in subs:
        for f in "FNSD":
            depth = (5 if thor else 4) if nm in ("PLR-2d", "APOS") else (4 if thor else 3)
            if f == "D":
                depth = 1
            yield dict(kind="hist", name=nm, first=f, depth=depth, seed=seed)
        for method in ("normal", "Bayes", "wild"):
            yield dict(kind="mboot", name=nm, method=method, seed=seed)


if __name__ == "__main__":
    Check("C15", case_fn, cases, rule="all estimate/error patterns over small alphabets for up to 3 parameters and 4 repetitions, all bootstrap "
          "patterns over small alphabets x all statistic patterns, all histories of fit/split/bootstrap up to the depth over 15 models",
          assumptions=["the moments of the bootstrap weights are tested on one fixed seed per method"]).main()
