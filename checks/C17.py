"""C17 composite models: every ordered selection of treatment levels / quantiles x options x splittings, every set of reference levels,
every subset of supplied predictions, and every operation history to a depth; each component and contrast is compared with separately
built single models on the same splitting."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc.catalog import make_df, smpls_from_labels
from mc.core import Check, close, scaled_close
from mc.scorecases import ladder_labels
from mc.spy import CTL, clf, lin

LV = [0.0, 1.0, 2.0]
SPL = {"1": [[0, 1, 0, 1]], "2": [[0, 1, 0, 1], [0, 0, 1, 1]], "3": [[0, 1, 2, 1], [0, 1, 1, 2], [0, 0, 1, 2]],
       "L": ladder_labels(5, 5, 4)}


# ------------------------------------------------------------------ building
def frame(kind, seed, B=4, levels=3):
    per = {"lvl": 2, "lvly": 2, "bin": 4, "iv": 4}[kind]
    df = make_df(kind, B, per * (levels // 3), seed)
    if levels > 3:
        # the rows of every (block, level) cell are spread over levels l, l + 3, ...
        df["d"] = df["d"] + 3.0 * (df.groupby(["block", "d"]).cumcount() % (levels // 3))
    return df


def apos_opts(name, df, n_rep):
    n = len(df)
    w = df["w"].to_numpy()
    return {"plain": {}, "norm": dict(normalize_ipw=True), "trim": dict(trimming_threshold=0.25), "w": dict(weights=w),
            "wbar": dict(weights={"weights": w, "weights_bar": np.column_stack([w * (1 + 0.1 * k) for k in range(n_rep)])}),
            "biny": {}}[name]


def apos_build(df, levels, opt, n_rep, labels, cls="APOS", level=None):
    import doubleml as dml

    data = dml.DoubleMLData(df, "y", "d", x_cols=["X1", "X2"])
    g = clf("ml_g", 1.0) if opt == "biny" else lin("ml_g", 1.0)
    kw = dict(n_folds=2, n_rep=n_rep, draw_sample_splitting=False, **apos_opts(opt, df, n_rep))
    if cls == "APOS":
        m = dml.DoubleMLAPOS(data, ml_g=g, ml_m=clf("ml_m", 2.0), treatment_levels=levels, **kw)
    else:
        m = dml.DoubleMLAPO(data, ml_g=g, ml_m=clf("ml_m", 2.0), treatment_level=level, **kw)
    m.set_sample_splitting([smpls_from_labels(df.block, l) for l in labels])
    return m


def qte_build(df, score, q, n_rep, labels, opt, treatment=None):
    import doubleml as dml

    data = dml.DoubleMLData(df, "y", "d", x_cols=["X1", "X2"], **({"z_cols": "z"} if score == "LPQ" else {}))
    g = lin("ml_g", 1.0) if score == "CVaR" else clf("ml_g", 1.0)
    kw = dict(n_folds=2, n_rep=n_rep, draw_sample_splitting=False)
    kw.update({"plain": {}, "nonorm": dict(normalize_ipw=False), "trim": dict(trimming_threshold=0.25)}[opt])
    if opt == "kde" or opt == "plain" and score != "CVaR":
        kw["kde"] = kde
    if treatment is None:
        m = dml.DoubleMLQTE(data, g, clf("ml_m", 2.0), quantiles=q, score=score, **kw)
    else:
        if score == "CVaR":
            kw.pop("kde", None)
        cls = {"PQ": dml.DoubleMLPQ, "LPQ": dml.DoubleMLLPQ, "CVaR": dml.DoubleMLCVAR}[score]
        m = cls(data, g, clf("ml_m", 2.0), quantile=q, treatment=treatment, **kw)
    m.set_sample_splitting([smpls_from_labels(df.block, l) for l in labels])
    return m


def kde(u, weights):
    return float(np.mean(weights * np.exp(-0.5 * (u / 0.7) ** 2)) / 0.7)


# ------------------------------------------------------------------ comparison
def single_res(m):
    r = {"th": m.all_coef[0].copy(), "se": m.all_se[0].copy(), "psi": np.asarray(m.framework.scaled_psi)[:, 0, :].copy(),
         "coef": m.coef[0], "ses": m.se[0], "pred": {k: v[:, :, 0].copy() for k, v in (m.predictions or {}).items()},
         "target": {k: v[:, :, 0].copy() for k, v in (m.nuisance_targets or {}).items()},
         "loss": {k: v.copy() for k, v in m.nuisance_loss.items()}}
    if m.sensitivity_elements is not None and m.framework.sensitivity_elements is not None:
        r["sens"] = {k: np.asarray(v) for k, v in m.sensitivity_elements.items() if v is not None}
    return r


def same_single(rec, key, a, b, what):
    for k in ("th", "se", "psi", "coef", "ses"):
        if not scaled_close(a[k], b[k], rtol=2e-7):
            rec.fail(f"{key}:{k}", f"{what}: {k} is {np.ravel(a[k])[:3]} in the composite, {np.ravel(b[k])[:3]} in the single model")
            return False
    for g in ("pred", "target", "loss", "sens"):
        A, B = a.get(g, {}), b.get(g, {})
        if set(A) != set(B):
            rec.fail(f"{key}:{g}", f"{what}: {g} has {sorted(A)} instead of {sorted(B)}")
            return False
        for k in A:
            if not scaled_close(A[k], B[k], rtol=2e-7):
                rec.fail(f"{key}:{g}:{k}", f"{what}: {g} {k} differs from the single model")
                return False
    return True


def agg(th, se, n):
    m = np.median(th, axis=1)
    return m, np.sqrt(np.median(se ** 2 + (th - m[:, None]) ** 2 / n, axis=1))


def check_fw(rec, key, fw, th, psi, what, names=None, n_rep=None):
    """th (p, r), psi (n, p, r): the framework holds exactly these, errors from the scores, the median rule"""
    n = psi.shape[0]
    se = np.sqrt(np.mean(psi ** 2, axis=0) / n)
    m, s = agg(th, se, n)
    for nm, got, want in (("all_thetas", fw.all_thetas, th), ("scaled_psi", fw.scaled_psi, psi), ("all_ses", fw.all_ses, se), ("thetas", fw.thetas, m), ("ses", fw.ses, s)):
        if np.shape(got) != np.shape(want) or not scaled_close(got, want, rtol=2e-7):
            rec.fail(f"{key}:{nm}", f"{what}: {nm} is {np.ravel(got)[:4]}, expected {np.ravel(want)[:4]}")
            return False
    if names is not None and list(fw.treatment_names) != names:
        rec.fail(f"{key}:names", f"{what}: names {list(fw.treatment_names)}, expected {names}")
    return True


def check_report(rec, key, m, index, what):
    fw = m.framework
    s = m.summary
    ok = rec.expect(list(s.index) == list(index), f"{key}:index", f"{what}: summary rows {list(s.index)}, requested {index}")
    ok &= rec.expect(close(s["coef"].to_numpy(float), fw.thetas) and close(s["std err"].to_numpy(float), fw.ses), f"{key}:summary", what)
    ci = m.confint()
    ok &= rec.expect(list(ci.index) == list(index) and close(ci.to_numpy(), fw.confint().to_numpy()), f"{key}:confint", f"{what}: {list(ci.index)}")
    for a, b in (("coef", "thetas"), ("se", "ses"), ("all_coef", "all_thetas"), ("all_se", "all_ses")):
        ok &= rec.expect(close(getattr(m, a), getattr(fw, b)), f"{key}:{a}", f"{what}")
    return ok


# ------------------------------------------------------------------ APOS
class Singles:
    def __init__(self, df, opt, n_rep, labels):
        self.a = (df, opt, n_rep, labels)
        self.c = {}

    def get(self, lv, ext=None, ek=None):
        k = (lv, ek)
        if k not in self.c:
            df, opt, n_rep, labels = self.a
            m = apos_build(df, None, opt, n_rep, labels, cls="APO", level=lv)
            m.fit(external_predictions=ext)
            self.c[k] = single_res(m)
        return self.c[k]


def contrast_ref(levels, refs, S):
    used, out, names = set(), [], []
    for r in refs:
        used.add(r)
        for l in levels:
            if l not in used:
                out.append((l, r))
                names.append(f"{l} vs {r}")
    return out, names


def check_contrast(rec, key, m, levels, refs, R, what):
    arg = refs if isinstance(refs, list) else [refs]
    pairs, names = contrast_ref(levels, arg, R)
    if not pairs:
        return
    c = m.causal_contrast(refs)
    th = np.stack([R[a]["th"] - R[b]["th"] for a, b in pairs])
    psi = np.stack([R[a]["psi"] - R[b]["psi"] for a, b in pairs], axis=1)
    if not check_fw(rec, f"{key}:contrast", c, th, psi, f"{what}, reference {refs}", names):
        return
    s2 = np.stack([(R[a]["sens"]["sigma2"] + R[b]["sens"]["sigma2"])[0, :, 0] / 2 for a, b in pairs])
    n2 = np.stack([(R[a]["sens"]["nu2"] + R[b]["sens"]["nu2"])[0, :, 0] for a, b in pairs])
    p2 = np.stack([(R[a]["sens"]["psi_sigma2"] + R[b]["sens"]["psi_sigma2"])[:, :, 0] / 2 for a, b in pairs], axis=1)
    q2 = np.stack([(R[a]["sens"]["psi_nu2"] + R[b]["sens"]["psi_nu2"])[:, :, 0] for a, b in pairs], axis=1)
    mb = np.sqrt(s2 * n2)
    pmb = (s2 * q2 + n2 * p2) / (2 * mb)
    se = c.sensitivity_elements
    rec.expect(scaled_close(np.asarray(se["max_bias"])[0], mb) and scaled_close(se["psi_max_bias"], pmb), f"{key}:contrast-bias", f"{what}, reference {refs}")
    rec.expect(list(c.summary.index) == names and list(c.confint().index) == names, f"{key}:contrast-index", f"{what}: {list(c.summary.index)}")
    rec.outcome("contrast", np.round(c.thetas, 8).tolist(), np.round(c.ses, 8).tolist())


def apos_case(case, rec):
    opt, spl = case["opt"], case["spl"]
    labels = SPL[spl]
    df = frame("lvly" if opt == "biny" else "lvl", case["seed"], len(labels[0]), 6 if spl == "L" else 3)
    n_rep = len(labels)
    CTL.reset(log=False)
    S = Singles(df, opt, n_rep, labels)
    orders = [list(o) for k in (1, 2, 3) for o in itertools.permutations(LV, k)] + [1.0]
    if spl == "L":
        orders = [[3.0, 0.0, 4.0, 1.0], [5.0, 2.0, 0.0, 3.0, 1.0, 4.0], [0.0, 1.0, 2.0, 3.0, 4.0]]
    for levels in orders:
        m = apos_build(df, levels, opt, n_rep, labels)
        m.fit()
        lst = levels if isinstance(levels, list) else [levels]
        key = f"apos-{opt}"
        what = f"levels {levels}, {n_rep} repetitions"
        rec.state("apos", opt, spl, str(levels))
        rec.trace()
        R = {l: S.get(l) for l in lst}
        ok = check_fw(rec, key, m.framework, np.stack([R[l]["th"] for l in lst]), np.stack([R[l]["psi"] for l in lst], axis=1), what)
        ok = ok and rec.expect(list(m.treatment_levels) == lst and len(m.modellist) == len(lst), f"{key}:levels", f"{what}: {m.treatment_levels}")
        if not ok:
            continue
        for i, l in enumerate(lst):
            rec.step()
            same_single(rec, f"{key}:component", single_res(m.modellist[i]), R[l], f"{what}, component {i}")
            rec.expect(scaled_close(m.framework.all_ses[i], R[l]["se"], rtol=2e-7), f"{key}:se", f"{what}: component {i}")
        check_report(rec, key, m, lst, what)
        rec.outcome("apos", np.round(m.coef, 8).tolist())
        if len(lst) > 1:
            for refs in [r for r in lst] + ([list(r) for k in (1, 2, 3) for r in itertools.permutations(lst, k)] if spl != "L" else
                                            [lst[1:3], lst[::-1][:3], lst[:4], lst[::-1], [lst[-1], lst[0]]]):
                rec.step()
                check_contrast(rec, key, m, lst, refs, R, what)
            for bad in (7.0, [0.0, 7.0], [9.0]):
                try:
                    m.causal_contrast(bad)
                    rec.fail(f"{key}:contrast-invalid", f"{what}: reference {bad} accepted")
                except ValueError:
                    pass


def ext_case(case, rec):
    """all subsets of supplied predictions"""
    df = frame("lvl", case["seed"])
    labels = SPL["2"]
    n = len(df)
    CTL.reset(log=False)
    levels = case["levels"]
    names = ["ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m"]
    base = 0.3 + 0.4 * (np.arange(n) % 7)[:, None] / 7 + 0.06 * np.arange(2)[None, :]
    val = {(l, nm): base * (1 + 0.2 * j) * (1 if nm == "ml_m" else 3.0) * (0.8 + 0.1 * k) for j, l in enumerate(levels) for k, nm in enumerate(names)}
    S = Singles(df, "plain", 2, labels)
    slots = [(l, nm) for l in levels for nm in names]
    for bits in itertools.product((0, 1), repeat=len(slots)):
        if case["lim"] and 2 < sum(bits) < len(slots) - 1 and sum(bits) % 2:
            continue
        ext = {}
        for b, (l, nm) in zip(bits, slots):
            if b:
                ext.setdefault(l, {})[nm] = val[l, nm]
        m = apos_build(df, levels, "plain", 2, labels)
        m.fit(external_predictions=ext)
        rec.state("ext", levels, bits)
        rec.trace()
        ren = {"ml_g_d_lvl0": "ml_g_d_lvl0", "ml_g_d_lvl1": "ml_g_d_lvl1", "ml_m": "ml_m"}
        for i, l in enumerate(levels):
            rec.step()
            e = {"d": {ren[k]: v for k, v in ext[l].items()}} if l in ext else None
            r = S.get(l, e, tuple(sorted(ext.get(l, {}))))
            if not same_single(rec, "ext:component", single_res(m.modellist[i]), r, f"levels {levels}, supplied {[s for b, s in zip(bits, slots) if b]}, component {l}"):
                return
            rec.expect(scaled_close(m.all_coef[i], r["th"]) and scaled_close(m.all_se[i], r["se"]), "ext:composite", f"{bits} component {l}")


# ------------------------------------------------------------------ QTE
def qte_case(case, rec):
    score, opt, spl = case["score"], case["opt"], case["spl"]
    labels = SPL[spl]
    df = frame("iv" if score == "LPQ" else "bin", case["seed"], len(labels[0]))
    n_rep = len(labels)
    CTL.reset(log=False)
    cache = {}

    def single(q, t):
        if (q, t) not in cache:
            m = qte_build(df, score, q, n_rep, labels, opt, treatment=t)
            m.fit()
            cache[q, t] = single_res(m)
        return cache[q, t]

    Q = [0.3, 0.5, 0.65]
    orders = [list(o) for k in (1, 2, 3) for o in itertools.permutations(Q, k)] if case["all"] else [[0.5], [0.65, 0.3], [0.3, 0.65, 0.5]]
    orders = [0.5] + orders
    if spl == "L":
        orders = [[0.6, 0.3, 0.5, 0.4], [0.25, 0.35, 0.45, 0.5, 0.55, 0.65]]
    for qs in orders:
        m = qte_build(df, score, qs, n_rep, labels, opt)
        m.fit()
        lst = qs if isinstance(qs, list) else [qs]
        key = f"qte-{score}"
        what = f"quantiles {qs} ({opt}), {n_rep} repetitions"
        rec.state("qte", score, opt, spl, str(qs))
        rec.trace()
        d = [(single(q, 1), single(q, 0)) for q in lst]
        check_fw(rec, key, m.framework, np.stack([a["th"] - b["th"] for a, b in d]), np.stack([a["psi"] - b["psi"] for a, b in d], axis=1), what)
        for i, q in enumerate(lst):
            rec.step(2)
            same_single(rec, f"{key}:component", single_res(m.modellist_1[i]), d[i][0], f"{what}, component {q}, treated")
            same_single(rec, f"{key}:component", single_res(m.modellist_0[i]), d[i][1], f"{what}, component {q}, control")
        check_report(rec, key, m, lst, what)
        rec.expect(list(m.quantiles) == lst, f"{key}:quantiles", f"{what}: {m.quantiles}")
        rec.expect(list(m.p_adjust("holm").index) == lst, f"{key}:p_adjust", what)
        rec.outcome("qte", score, np.round(m.coef, 7).tolist(), np.round(m.se, 7).tolist())


# ------------------------------------------------------------------ histories
def hist_case(case, rec):
    name = case["name"]
    is_apos = name == "APOS"
    score = None if is_apos else name.split("-")[1]
    df = frame("lvl" if is_apos else ("iv" if score == "LPQ" else "bin"), case["seed"])
    A, B, C = SPL["2"], SPL["1"], [[0, 1, 2, 1]]
    splits = {k: [smpls_from_labels(df.block, l) for l in v] for k, v in (("A", A), ("B", B), ("C", C))}
    CTL.reset(log=False)
    levels, qs = [2.0, 0.0], [0.6, 0.4]
    n = len(df)
    extv = 0.3 + 0.4 * (np.arange(n) % 7)[:, None] / 7

    def fresh(labels):
        return apos_build(df, levels, "plain", len(labels), labels) if is_apos else qte_build(df, score, qs, len(labels), labels, "nonorm")

    cache = {}

    def singles(smpls, ext):
        k = (repr([[(tuple(map(int, a)), tuple(map(int, b))) for a, b in r] for r in smpls]), ext)
        if k not in cache:
            out = []
            for c in (levels if is_apos else [(q, t) for t in (1, 0) for q in qs]):
                if is_apos:
                    m = apos_build(df, None, "plain", len(smpls), A[:1], cls="APO", level=c)
                else:
                    m = qte_build(df, score, c[0], len(smpls), A[:1], "nonorm", treatment=c[1])
                m.set_sample_splitting(smpls)
                m.fit(**({"external_predictions": {"d": {"ml_m": np.repeat(extv, len(smpls), axis=1)}}} if ext and is_apos and c == 0.0 else {}))
                out.append(single_res(m))
            cache[k] = out
        return cache[k]

    ops = ["F", "sA", "sB", "sC", "D", "b", "FN"] + (["E"] if is_apos else [])
    for seq in itertools.product(ops, repeat=case["depth"]):
        if "F" not in seq[-1] and "E" not in seq[-1] and seq[-1] != "b":
            continue
        m = fresh(A)
        fitted, ext = False, False
        for o in seq:
            rec.step()
            if o in ("F", "FN"):
                m.fit(store_predictions=o == "F")
                fitted, ext = True, False
                stored = o == "F"
            elif o == "E":
                m.fit(external_predictions={0.0: {"ml_m": np.repeat(extv, m.n_rep, axis=1)}})
                fitted, ext, stored = True, True, True
            elif o[0] == "s":
                m.set_sample_splitting(splits[o[1]])
                fitted = False
            elif o == "D":
                np.random.seed(3)
                m.draw_sample_splitting()
                fitted = False
            elif o == "b":
                if not fitted:
                    try:
                        m.bootstrap(n_rep_boot=4)
                        rec.fail(f"hist:{name}:bootstrap", f"{seq}: bootstrap without a fit")
                    except ValueError:
                        pass
                else:
                    np.random.seed(5)
                    m.bootstrap("normal", n_rep_boot=4)
            comps = m.modellist if is_apos else list(m.modellist_1) + list(m.modellist_0)
            for c in comps:
                same = len(c.smpls) == len(m.smpls) and all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) for r, q in zip(c.smpls, m.smpls) for a, b in zip(r, q))
                if not (same and c.n_rep == m.n_rep and c.n_folds == m.n_folds):
                    rec.fail(f"hist:{name}:splitting", f"after {seq[:seq.index(o) + 1]}: a component has another splitting ({c.n_rep}x{c.n_folds}) than the composite ({m.n_rep}x{m.n_folds})")
                    return
            if not fitted:
                rec.expect(m.framework is None and m.coef is None, f"hist:{name}:stale", f"{seq}: results reported without a fit on the splitting")
            rec.state(name, o, fitted, ext, len(m.smpls), len(m.smpls[0]))
        if fitted:
            S = singles(m.smpls, ext)
            for c, s in zip(comps, S):
                r = single_res(c)
                if not stored:
                    rec.expect(c.predictions is None, f"hist:{name}:store", f"{seq}: predictions stored although switched off")
                    s = dict(s, pred=r["pred"], target=r["target"])
                if not same_single(rec, f"hist:{name}", r, s, f"after {seq}"):
                    return
            k = len(comps) if is_apos else len(comps) // 2
            th = np.stack([S[i]["th"] - (0 if is_apos else S[i + k]["th"]) for i in range(k)])
            psi = np.stack([S[i]["psi"] - (0 if is_apos else S[i + k]["psi"]) for i in range(k)], axis=1)
            if not check_fw(rec, f"hist:{name}:composite", m.framework, th, psi, f"after {seq}"):
                return
            if seq[-1] == "b":
                np.random.seed(5)
                for r in range(m.n_rep):
                    W = np.random.normal(size=(4, n))
                    want = W @ (psi[:, :, r] / (n * np.sqrt(np.mean(psi[:, :, r] ** 2, axis=0) / n)))
                    if not scaled_close(m.boot_t_stat[:, :, r], want):
                        rec.fail(f"hist:{name}:boot", f"after {seq}: bootstrap statistics are not those of the current components with common weights")
                        return
            else:
                rec.expect(m.boot_t_stat is None, f"hist:{name}:stale-boot", f"{seq}: bootstrap of a previous fit is still reported")
        rec.trace()


def case_fn(case, rec):
    {"apos": apos_case, "ext": ext_case, "qte": qte_case, "hist": hist_case}[case["kind"]](case, rec)


def cases(tier, seed):
    thor = tier == "thorough"
    for s in [seed] if not thor else [seed, seed + 11, seed + 23]:
        for opt in ("plain", "norm", "trim", "w", "wbar", "biny"):
            for spl in ("1", "2", "3", "L") if thor or opt in ("plain", "wbar") else ("2",):
                yield dict(kind="apos", name="apos", opt=opt, spl=spl, seed=s)
        for lv in ([2.0, 0.0], [0.0, 1.0]) + (([1.0, 2.0, 0.0],) if thor else ()):
            yield dict(kind="ext", name="ext", levels=lv, lim=not thor or len(lv) == 3, seed=s)
        for score in ("PQ", "LPQ", "CVaR"):
            for opt in ("plain", "nonorm", "trim"):
                for spl in ("1", "2", "3", "L") if thor or opt == "plain" else ("2",):
                    yield dict(kind="qte", name="qte", score=score, opt=opt, spl=spl, seed=s, all=thor or (opt == "plain" and spl == "2"))
        yield dict(kind="hist", name="APOS", depth=3 if not thor else 4, seed=s)
        for sc in ("PQ", "LPQ", "CVaR"):
            yield dict(kind="hist", name=f"QTE-{sc}", depth=2 if not thor else 3, seed=s)


if __name__ == "__main__":
    Check("C17", case_fn, cases, rule="all ordered selections of up to three treatment levels or quantiles x options x splittings; all scalar and ordered "
          "lists of reference levels; all subsets of (level, nuisance function) predictions; all histories of fit / splitting / redraw / bootstrap operations to "
          "depth 3 (composite quantile models 2); components and contrasts against separately built single models",
          assumptions=["learners are deterministic"]).main()
