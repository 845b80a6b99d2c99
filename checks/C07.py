"""C07 aggregation and slot independence: all ordered selections of treatments (up to three) and of repetitions (pairs, triples and
quadruples of fold partitions); every (repetition, treatment) slot of the joint model must equal the separate single-treatment,
single-repetition model, and the reported estimate and error must be the median rule applied to the slots."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc.catalog import catalog, smpls_from_labels
from mc.core import Check, close, scaled_close, set_partitions
from mc.spy import CTL

THREE = {"PLR-po", "PLR-iv", "PLR-call", "PLR-call2", "PLIV-po", "PLIV-2z"}


def slot(m, it, ir):
    out = {"coef": m.all_coef[it, ir], "se": m.all_se[it, ir], "psi": m.psi[:, ir, it], "psi_deriv": m.psi_deriv[:, ir, it]}
    for k, v in m.psi_elements.items():
        out["el:" + k] = v[:, ir, it]
    for k in m.params_names:
        out["pred:" + k] = m.predictions[k][:, ir, it]
        out["target:" + k] = m.nuisance_targets[k][:, ir, it]
        out["loss:" + k] = m.nuisance_loss[k][ir, it]
    if m.sensitivity_elements is not None:
        for k, v in m.sensitivity_elements.items():
            if k != "riesz_rep" or v is not None:
                out["sens:" + k] = np.asarray(v)[:, ir, it]
    fw = m.framework
    out["fw:psi"] = fw.scaled_psi[:, it, ir]
    out["fw:coef"] = fw.all_thetas[it, ir]
    out["fw:se"] = fw.all_ses[it, ir]
    return out


def fallback(s):
    """nu2 was not positive in the separate model and has been re-estimated as the second moment of the Riesz representer"""
    if "sens:nu2" not in s:
        return False
    rr2 = s["sens:riesz_rep"] ** 2
    return scaled_close(np.ravel(s["sens:nu2"])[0], np.mean(rr2)) and scaled_close(np.ravel(s["sens:psi_nu2"]), rr2 - np.mean(rr2))


def compare(rec, key, a, b, what, fb=False):
    for k in a:
        if fb and k in ("sens:nu2", "sens:psi_nu2"):
            # re-estimated for every repetition of the treatment as soon as one is not positive
            rr2 = a["sens:riesz_rep"] ** 2
            want = np.mean(rr2) if k == "sens:nu2" else rr2 - np.mean(rr2)
            if not scaled_close(np.ravel(a[k]), np.ravel(want)):
                rec.fail(f"slot:{key}:{k}:re-estimated", f"{what}: {np.ravel(a[k])[:3]} instead of {np.ravel(want)[:3]}")
                return False
            continue
        if not scaled_close(a[k], b[k], rtol=2e-7):
            rec.fail(f"slot:{key}:{k}", f"{what}: {k} is {np.ravel(a[k])[:3]} in the joint and {np.ravel(b[k])[:3]} in the separate model")
            return False
    return True


def aggregate(rec, key, m, what):
    c = np.median(m.all_coef, axis=1)
    vs = m.framework.var_scaling_factors
    vs = np.asarray(vs).reshape(len(c), -1)
    v = np.median(m.all_se**2 + (m.all_coef - c[:, None]) ** 2 / vs, axis=1)
    rec.expect(scaled_close(m.coef, c), f"median:{key}", f"{what}: {m.coef} instead of {c}")
    rec.expect(scaled_close(m.se, np.sqrt(v)), f"variance:{key}", f"{what}: {m.se} instead of {np.sqrt(v)}")
    rec.expect(close(m.framework.thetas, m.coef) and close(m.framework.ses, m.se), f"framework:{key}", f"{what}")
    s = m.summary
    rec.expect(close(s["coef"].to_numpy(float), m.coef) and close(s["std err"].to_numpy(float), m.se), f"summary:{key}", f"{what}")
    rec.expect(np.all(vs == len(m.psi)), f"units:{key}", f"{what}: scaling {vs}")


def fit(cfg, df, reps, treats, use_other, n_rep=None, x_extra=(), wb=None):
    over = {}
    if wb is not None:
        over["weights"] = wb
    if x_extra:
        import doubleml as dml

        data = dml.DoubleMLData(df, "y", treats, x_cols=cfg.xcols(df) + list(x_extra), use_other_treat_as_covariate=use_other, **cfg.data_kw)
    else:
        data = cfg.data(df, treats=treats, use_other=use_other)
    m = cfg.build(df, data=data, n_rep=len(reps), **over)
    m.set_sample_splitting([smpls_from_labels(df.block, r) for r in reps])
    CTL.reset(log=False)
    m.fit()
    return m


def case_fn(case, rec):
    {"reps": reps_case, "treats": treats_case}[case["kind"]](case, rec)


def wbar(cfg, df, ir_list):
    w = df["w"].to_numpy()
    return {"weights": w.copy(), "weights_bar": np.column_stack([w * (1 + 0.1 * k) + 0.05 * k * df["X2"].to_numpy() ** 2 for k in ir_list])}


def reps_case(case, rec):
    cfg = catalog(1)[case["cfg"]]
    df = cfg.frame(case["seed"], blocks=case["B"])
    parts = [list(p) for p in set_partitions(case["B"], case["k"], case["k"])][: case["np"]]
    single = {}
    isw = "wbar" in cfg.name

    def get(i, slotw):
        k = (i, slotw if isw else 0)
        if k not in single:
            m = fit(cfg, df, [parts[i]], cfg.treats, True, wb=wbar(cfg, df, [slotw]) if isw else None)
            single[k] = [slot(m, it, 0) for it in range(len(cfg.treats))]
        return single[k]

    P = range(len(parts))
    sel = list(itertools.product(P, repeat=2)) + list(itertools.permutations(list(P)[:3], 3)) + [tuple(list(P)[:4]), tuple(list(P)[:4][::-1])]
    if case.get("long"):
        sel = [tuple(P), tuple(P)[::-1][:4], (0, 0, 1, 1, 0), (0,) * 4]
    if case["deep"]:
        sel += list(itertools.permutations(P, 3)) + list(itertools.permutations(list(P)[:4], 4))
    for s in sel:
        m = fit(cfg, df, [parts[i] for i in s], cfg.treats, True, wb=wbar(cfg, df, range(len(s))) if isw else None)
        rec.state(cfg.name, s)
        rec.trace()
        aggregate(rec, cfg.name, m, s)
        refs = [get(i, ir) for ir, i in enumerate(s)]
        for ir, ref in enumerate(refs):
            for it in range(len(cfg.treats)):
                rec.step()
                fb = any(fallback(q[it]) for q in refs)
                if not compare(rec, cfg.name, slot(m, it, ir), ref[it], f"repetition {ir} of {s}, treatment {it}", fb):
                    return
        rec.outcome(cfg.name, np.round(m.coef, 8).tolist(), np.round(m.se, 8).tolist())


def treats_case(case, rec):
    cfg = catalog(1)[case["cfg"]]
    df = cfg.frame(case["seed"], blocks=case["B"])
    r = np.random.RandomState(case["seed"] + 5)
    df["d3"] = 0.4 * df["X1"] - 0.3 * df["d2"] + r.randn(len(df))
    reps = case["reps"]
    allt = ["d", "d2", "d3"]
    orders = [o for k in (1, 2, 3) for o in itertools.permutations(allt, k)]
    if case.get("long"):
        for i in range(4, 7):
            df[f"d{i}"] = 0.2 * i * df["X2"] + 0.1 * df["d2"] + r.randn(len(df))
        orders = [("d4", "d2", "d", "d3"), ("d5", "d", "d3", "d6", "d2", "d4")]
    single = {}
    for order in orders:
        for use_other in (True, False):
            m = fit(cfg, df, reps, list(order), use_other)
            rec.state(cfg.name, order, use_other)
            rec.trace()
            aggregate(rec, cfg.name, m, (order, use_other))
            rec.expect(list(m.framework.treatment_names) == list(order) and list(m.summary.index) == list(order), f"names:{cfg.name}",
                       f"{order}: results labelled {list(m.summary.index)}")
            for it, d in enumerate(order):
                others = tuple(sorted(set(order) - {d})) if use_other else ()
                for ir, lab in enumerate(reps):
                    k = (d, others, ir)
                    if k not in single:
                        s = fit(cfg, df, [lab], [d], True, x_extra=others)
                        single[k] = slot(s, 0, 0)
                fb = any(fallback(single[d, others, ir]) for ir in range(len(reps)))
                for ir in range(len(reps)):
                    rec.step()
                    what = f"treatment {d} of {order} (others {use_other}), repetition {ir}"
                    if not compare(rec, cfg.name, slot(m, it, ir), single[d, others, ir], what, fb):
                        return
            rec.outcome(cfg.name, np.round(m.coef, 8).tolist())


def cases(tier, seed):
    thor = tier == "thorough"
    for s in [seed] if not thor else [seed, seed + 31]:
        for nm in catalog():
            yield dict(kind="reps", cfg=nm, name=nm, B=4, k=2, np=7, deep=thor, seed=s)
            yield dict(kind="reps", cfg=nm, name=nm, B=4, k=3, np=4 if not thor else 6, deep=thor, seed=s)
            yield dict(kind="reps", cfg=nm, name=nm, B=4, k=2, np=7, long=True, deep=False, seed=s)
            yield dict(kind="reps", cfg=nm, name=nm, B=6, k=5, np=4, long=True, deep=False, seed=s)
        for nm in sorted(THREE):
            yield dict(kind="treats", cfg=nm, name=nm, B=6, reps=[[0, 1, 2, 3, 4, 0], [4, 1, 2, 0, 1, 3], [0, 1, 4, 3, 2, 3], [1, 0, 2, 0, 4, 3]], long=True, seed=s)
            parts = [list(p) for p in set_partitions(4, 2, 2)]
            for reps in ([parts[0]], [parts[1], parts[5]], [parts[2], parts[0], parts[6]]) if not thor else (
                    [[p] for p in parts] + [list(q) for q in itertools.permutations(parts[:4], 2)] + [list(q) for q in itertools.permutations(parts[3:6], 3)]):
                yield dict(kind="treats", cfg=nm, name=nm, B=4, reps=reps, seed=s)


if __name__ == "__main__":
    Check("C07", case_fn, cases, rule="every model configuration: all ordered pairs of two-fold partitions of 4 blocks, permutations of triples and "
          "quadruples (also three-fold partitions); partially linear models: all ordered subsets of three treatments with and without the other "
          "treatments as covariates; each slot against the separate model, aggregate against the median rule",
          assumptions=["learners are deterministic"]).main()
