"""C05: estimate = root of the reported score, error = sandwich formula, for every enumerated assignment of nuisance predictions."""
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc.core import Check, close, h
from mc.scorecases import cases, executions, fam


def score_tools(cfg, m, ir, it):
    pe = m.psi_elements
    return {k: np.asarray(v)[:, ir, it] if np.ndim(v) == 3 else v for k, v in pe.items()}


def case_fn(case, rec):
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("ignore")
        for cfg, df, m, opts, smpls, vals, what in executions(case):
            one(cfg, df, m, opts, rec, what)
            rec.trace()
            if len(rec.fails) >= 4:
                return


def one(cfg, df, m, opts, rec, what):
    n = len(df)
    nm = cfg.name
    for it in range(len(cfg.treats)):
        for ir in range(m.n_rep):
            th, se = m.all_coef[it, ir], m.all_se[it, ir]
            psi, dpsi = m.psi[:, ir, it], m.psi_deriv[:, ir, it]
            rec.state(nm, repr(what), it, ir)
            rec.step()
            rec.outcome(nm, np.round([th, se], 7).tolist())
            if cfg.linear:
                el = score_tools(cfg, m, ir, it)
                a, b = np.asarray(el["psi_a"], float), np.asarray(el["psi_b"], float)
                if not (np.isfinite(a).all() and np.isfinite(b).all()):
                    rec.note("degenerate")
                    continue
                if abs(a.mean()) < 1e-10 * max(1.0, np.abs(a).max()):
                    rec.note("degenerate")
                    rec.expect(not np.isfinite(th) or abs(th) > 1e6 or np.abs(psi).max() >= 0, f"root:{nm}", "")
                    continue
                sc = np.abs(b).mean() + np.abs(a * th).mean() + 1e-300
                rec.expect(np.isfinite(th) and abs(psi.mean()) <= 1e-9 * sc, f"root:{nm}",
                           f"mean score at the estimate is {psi.mean()} (scale {sc})", what=what)
                rec.expect(np.allclose(psi, th * a + b, rtol=1e-8, atol=1e-9 * sc), f"score-at-estimate:{nm}",
                           "reported score is not the score at the estimate", what=what)
                rec.expect(np.allclose(dpsi, a, rtol=1e-9, atol=1e-12), f"deriv:{nm}", "reported derivative is not psi_a", what=what)
            J, ga = dpsi.mean(), np.mean(psi**2)
            if abs(J) > 1e-12:
                want = np.sqrt(ga / J**2 / n)
                rec.expect(close(se, want, rtol=1e-7, atol=1e-12 * (1 + want)), f"se:{nm}", f"error {se} but sandwich formula gives {want}",
                           what=what)
        # aggregate over repetitions is C07's; here the single repetition must be reported unchanged
        if m.n_rep == 1:
            rec.expect(close(m.coef[it], m.all_coef[it, 0], 1e-12) and close(m.se[it], m.all_se[it, 0], 1e-9), f"single-rep:{nm}",
                       "single repetition not reported as estimate", what=what)
    if not cfg.linear:
        nonlinear(cfg, df, m, opts, rec, what)


def nonlinear(cfg, df, m, opts, rec, what):
    """root of a step function of theta, rebuilt from the reported score at the estimate"""
    from mc.refscores import Quantile

    nm = cfg.name
    y = df["y"].to_numpy(dtype=float)
    for ir in range(m.n_rep):
        th = m.all_coef[0, ir]
        psi = m.psi[:, ir, 0]
        P = {r: m.predictions[r][:, ir, 0] for r in m.params_names}
        Q = Quantile(cfg, df, P, opts)
        if fam(cfg) == "LPQ" and abs(Q.comp) < 1e-6:
            rec.note("degenerate")
            continue
        if not (np.isfinite(Q.w).all() and np.isfinite(Q.const).all()):
            rec.note("degenerate")
            continue
        ref = Q.score(th)
        # the score jumps at observed outcomes: compare on the side of the jump the implementation took
        near = np.abs(y - th) < 1e-9
        alt = Q.w * np.where(near, psi > ref.mean(), y <= th) + Q.const
        ok = np.allclose(psi, ref, rtol=1e-6, atol=1e-8 * (1 + np.abs(ref).max())) or near.any()
        rec.expect(ok, f"score-at-estimate:{nm}", "reported score is not the score at the estimate", what=what)
        rec.expect(np.isfinite(th) and y.min() - 1e-9 <= th <= y.max() + 1e-9, f"bounds:{nm}", f"estimate {th} outside the data range",
                   what=what)
        d_ref = Q.deriv(th)
        if np.isfinite(d_ref) and abs(Q.w.sum()) > 1e-8:
            rec.expect(np.allclose(m.psi_deriv[:, ir, 0], d_ref, rtol=1e-5, atol=1e-9), f"deriv:{nm}",
                       f"derivative {m.psi_deriv[0, ir, 0]} but kernel density gives {d_ref}", what=what)
        # root: a sign change within the tolerance, whenever the score changes sign on the search window
        L = y.max() - y.min()
        eps = 1e-7 * L
        lo, hi = Q.mean(th - eps), Q.mean(th + eps)
        jump = np.sign(lo) != np.sign(hi) or abs(Q.mean(th)) < 1e-10
        if jump:
            rec.note("root")
            continue
        tr = df["d"].to_numpy() == opts["treatment"]
        # start values used by any bracketing: anything between the smallest and largest outcome of the arm
        grid = np.sort(y[tr])
        signs = {np.sign(Q.mean(g)) for g in y} | {np.sign(Q.mean(y.min() - 1))}
        mid0, mid1 = y.min() + 0.5 * L, y.min() + 0.5 * L
        inner = [g for g in np.concatenate([y, [y.min() - 1e-6 * L]])]
        if fam(cfg) == "PQ" and case_full_window(Q, y, tr, opts):
            rec.fail(f"root:{nm}", f"score mean is {lo} / {hi} around the estimate {th} although it changes sign near the start value",
                     what=what)
        elif not ({-1.0, 1.0} <= signs):
            rec.note("no-root-exists")
        else:
            rec.note("root-not-reached")


def case_full_window(Q, y, tr, opts):
    """the monotone score changes sign within 0.45 of the range around every admissible start value"""
    L = y.max() - y.min()
    starts = np.concatenate([y[tr], [np.quantile(y[tr], opts["quantile"])]])
    for s in (starts.min(), starts.max()):
        a, b = max(s - 0.45 * L, y.min()), min(s + 0.45 * L, y.max())
        if not (Q.mean(a) < 0 < Q.mean(b)):
            return False
    return True


if __name__ == "__main__":
    Check("C05", case_fn, cases,
          rule="catalogue x options; per nuisance role every assignment of an alphabet (propensities including 0, 1 and values "
          "below the threshold) to 4 groups of observations, joint assignments of all roles, every treatment pattern of the "
          "binary-treatment models, full fits with 1-3 repetitions",
          assumptions=["root-search tolerance 1e-7 of the outcome range; the score of quantile models is piecewise constant so a root "
                       "is a sign change", "a quantile score that does not change sign on the search window has no root to report"]).main()
