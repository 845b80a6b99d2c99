"""C06: score (and sensitivity elements, and estimate) = documented formula of data and stored predictions, every enumerated
assignment of nuisance predictions."""
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc.core import Check, close
from mc.refscores import Quantile, col, cvar_b, norm_ipw, ref_linear, ref_sens
from mc.scorecases import cases, executions, fam


def case_fn(case, rec):
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("ignore")
        for cfg, df, m, opts, smpls, vals, what in executions(case):
            one(cfg, df, m, opts, smpls, vals, rec, what)
            rec.trace()
            if len(rec.fails) >= 4:
                return


def aclose(a, b, rtol=1e-7):
    sc = np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 1.0
    return np.allclose(a, b, rtol=rtol, atol=rtol * max(sc, 1e-9), equal_nan=True)


def one(cfg, df, m, opts, smpls, vals, rec, what):
    nm = cfg.name
    n = len(df)
    thr = opts.get("trimming_threshold", 1e-2)
    for it, dc in enumerate(cfg.treats):
        for ir in range(m.n_rep):
            rec.state(nm, repr(what), it, ir)
            rec.step()
            P = {r: m.predictions[r][:, ir, it] for r in m.predictions if m.predictions[r] is not None}
            if vals is not None:
                for r, role in cfg.roles.items():
                    if (dc, r) in vals:
                        want = np.clip(vals[dc, r], thr, 1 - thr) if role.clip else vals[dc, r]
                        rec.expect(close(P[r], want, 1e-9, 1e-11), f"stored:{nm}:{r}",
                                   "stored prediction is not the (truncated) prediction", what=what, got=P[r], want=want)
            th = m.all_coef[it, ir]
            psi = m.psi[:, ir, it]
            rec.outcome(nm, np.round(th, 7))
            if cfg.linear and fam(cfg) != "CVaR":
                a, b = ref_linear(cfg, df, dc, P, opts, ir, smpls[ir])
                a = a * np.ones(n)
                if not np.isfinite(a).all() or not np.isfinite(b).all() or abs(a.mean()) < 1e-9 * max(1, np.abs(a).max()):
                    rec.note("degenerate")
                    continue
                got_a, got_b = m.psi_elements["psi_a"][:, ir, it], m.psi_elements["psi_b"][:, ir, it]
                ok = aclose(got_a, a) and aclose(got_b, b)
                if not ok and fam(cfg) == "IIVM" and opts.get("normalize_ipw"):
                    a2, b2 = ref_linear(cfg, df, dc, P, opts, ir, smpls[ir], use_z_norm=False)
                    if aclose(got_a, a2) and aclose(got_b, b2):
                        rec.fail("iivm-normalize-uses-d", "IIVM normalises the instrument propensity with the treatment")
                        a, b, ok = a2, b2, True
                        if abs(a.mean()) < 1e-9 * max(1, np.abs(a).max()):
                            continue
                rec.expect(ok, f"score:{nm}", "score elements differ from the documented formula", what=what,
                           got_b=got_b, want_b=b, got_a=got_a, want_a=a)
                cf = -b.mean() / a.mean()
                rec.expect(close(th, cf, 1e-6, 1e-8), f"coef:{nm}", f"estimate {th}, closed form {cf}", what=what)
                rec.expect(aclose(psi, cf * a + b, 1e-6), f"psi:{nm}", "score at the estimate differs from the formula", what=what)
            elif fam(cfg) == "CVaR":
                cvar(cfg, df, m, P, opts, ir, rec, what, th)
            else:
                quant(cfg, df, m, P, opts, ir, rec, what, th, psi)
            if cfg.sens and m.sensitivity_elements is not None:
                allS = [ref_sens(cfg, df, dc, {r: m.predictions[r][:, q, it] for r in m.predictions}, opts, q, m.all_coef[it, q])
                        for q in range(m.n_rep)]
                S = allS[ir]
                if not all(np.isfinite(s["nu2"]) for s in allS):
                    rec.note("degenerate")
                    continue
                if any(abs(s["nu2"]) < 1e-9 * np.mean(s["rr"] ** 2) for s in allS):
                    rec.note("degenerate")
                    continue
                if any(s["nu2"] <= 0 for s in allS):  # documented fallback: non-orthogonal estimate
                    e = S["rr"] ** 2
                    S = dict(S, nu2=np.mean(e), psi_nu2=e - np.mean(e))
                    rec.note("nu2-fallback")
                E = m.sensitivity_elements
                for k, v in S.items():
                    kk = {"rr": "riesz_rep"}.get(k, k)
                    g = np.asarray(E[kk])[..., ir, it].ravel()
                    v = np.atleast_1d(np.asarray(v, float))
                    if k == "rr" and not aclose(g, v) and nm == "DIDCS-obs-nn" and aclose(np.abs(g), np.abs(v)):
                        rec.fail("didcs-riesz-sign", "DIDCS (observational, not normalised) reports an unsigned Riesz representer")
                        continue
                    rec.expect(aclose(g, v, 1e-6), f"sens:{nm}:{kk}", "sensitivity element differs from the formula", what=what,
                               got=g, want=v)


def cvar(cfg, df, m, P, opts, ir, rec, what, th):
    from mc.spy import CTL

    y, d = col(df, "y"), col(df, "d")
    tr, q = opts["treatment"], opts["quantile"]
    ma = norm_ipw(P["ml_m"], d) if opts["normalize_ipw"] else P["ml_m"]
    if tr == 0:
        ma = 1 - ma
    if not np.isfinite((d == tr) / ma).all():
        rec.note("degenerate")
        return
    b = m.psi_elements["psi_b"][:, ir, 0]
    a = m.psi_elements["psi_a"][:, ir, 0]
    rec.expect(np.all(a == -1), f"score:{cfg.name}", "psi_a is not -1", what=what)
    t = d == tr
    rec.expect(aclose(b[~t], P["ml_g"][~t]), f"score:{cfg.name}", "score of the other arm is not the outcome prediction", what=what)
    gt = (b[t] - P["ml_g"][t]) * ma[t] + P["ml_g"][t]
    # threshold: mean over folds of the preliminary quantiles, which the targets of the outcome learners reveal
    c = gt.min()
    cands = [c] + [(y[t][i] - gt[i] * (1 - q)) / q for i in range(t.sum())]
    ok = any(aclose(gt, np.maximum(x, (y[t] - q * x) / (1 - q)), 1e-6) for x in cands)
    rec.expect(ok, f"score:{cfg.name}", "targets inside the score have the wrong form", what=what)
    tg = m.nuisance_targets["ml_g"][:, ir, 0]
    per_fold = []
    for trn, te in m.smpls[ir]:
        te = np.array([i for i in te if t[i]])
        fits = [e for e in CTL.events if e["kind"] == "fit" and e["tag"] == "ml_g" and set(e["rows"]) <= set(map(int, trn))]
        sol = set()
        for e in fits:
            yy = y[list(e["rows"])]
            for x in [e["y"].min()] + [(yy[i] - e["y"][i] * (1 - q)) / q for i in range(len(yy))]:
                if aclose(e["y"], np.maximum(x, (yy - q * x) / (1 - q)), 1e-6):
                    sol.add(round(float(x), 7))
        per_fold.append(sorted(sol))
    import itertools

    if all(per_fold) and np.prod([len(p) for p in per_fold]) <= 200:
        ok = any(aclose(gt, np.maximum(x, (y[t] - q * x) / (1 - q)), 1e-5) for x in (np.mean(c) for c in itertools.product(*per_fold)))
        rec.expect(ok, f"threshold:{cfg.name}", "threshold is not the average of the preliminary quantiles of the folds", what=what)
        rec.note("cvar-threshold")
    rec.expect(close(th, b.mean(), 1e-8, 1e-9), f"coef:{cfg.name}", "estimate is not the average", what=what)


def quant(cfg, df, m, P, opts, ir, rec, what, th, psi):
    Q = Quantile(cfg, df, P, opts)
    if fam(cfg) == "LPQ" and abs(Q.comp) < 1e-6:
        rec.note("degenerate")
        return
    if not (np.isfinite(Q.w).all() and np.isfinite(Q.const).all()):
        rec.note("degenerate")
        return
    y = Q.y
    near = np.abs(y - th) < 1e-9 * (1 + np.abs(y).max())
    ind = (y <= th).astype(float)
    want = Q.w * ind + Q.const
    ok = np.abs(psi - want) <= 1e-7 * (1 + np.abs(want).max())
    alt = Q.w * (1 - ind) + Q.const
    ok |= near & (np.abs(psi - alt) <= 1e-7 * (1 + np.abs(want).max()))
    rec.expect(ok.all(), f"score:{cfg.name}", "score differs from the documented formula", what=what, got=psi, want=want)
    dref = Q.deriv(th)
    if np.isfinite(dref) and abs(Q.w.sum()) > 1e-8:
        rec.expect(np.allclose(m.psi_deriv[:, ir, 0], dref, rtol=1e-5, atol=1e-9), f"deriv:{cfg.name}", "derivative", what=what)


if __name__ == "__main__":
    Check("C06", case_fn, cases,
          rule="catalogue x options; per nuisance role every assignment of an alphabet to 4 groups of observations, joint assignments "
          "of all roles, every treatment pattern of the binary-treatment models, full fits with 1-3 repetitions; documented formula "
          "recomputed from data and stored predictions",
          assumptions=["formulas transcribed from the user guide / class documentation"]).main()
