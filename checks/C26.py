"""C26 summaries and printed reports: every history of public operations up to a depth is executed on the real objects; after every
operation the summary tables, the printed object and the sensitivity report are read back and compared with an explicit state (roles,
splitting, learners, whether a fit is in force, last scenario) and with the statistics recomputed from per-repetition results."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from scipy.stats import norm

from checks.C08 import Clustered, Comp, Single
from mc import observe as O
from mc.catalog import catalog, rng_for, smpls_from_labels
from mc.core import Check, close
from mc.scorecases import ladder_labels
from mc.spy import CTL

COLS = ["coef", "std err", "t", "P>|t|", "2.5 %", "97.5 %"]
NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)")
SCEN = [dict(cf_y=0.05, cf_d=0.1, rho=1.0, level=0.95, null_hypothesis=0.0), dict(cf_y=0.2, cf_d=0.03, rho=-0.5, level=0.8, null_hypothesis=0.4)]


def numbers(s):
    return [float(x) for x in NUM.findall(s)]


def printed_close(shown, value):
    """a displayed number is the value rounded to the displayed digits"""
    value = float(value)
    if np.isnan(value):
        return shown == "nan" or shown == "NaN"
    m = re.fullmatch(r"[-+]?(\d+)\.?(\d*)(?:[eE]([-+]?\d+))?", shown)
    if not m:
        return False
    tol = 0.51 * 10.0 ** (-len(m.group(2)) + int(m.group(3) or 0))
    return abs(float(shown) - value) <= tol + 1e-9 * abs(value) + 1e-14


# ------------------------------------------------------------------ reference statistics from the per-repetition results
def stats(all_th, all_se, vs, single):
    th = np.median(all_th, axis=1)
    se = np.sqrt(np.median(all_se**2 + (all_th - th[:, None]) ** 2 / np.reshape(vs, (-1, 1)), axis=1))
    allt = all_th / all_se
    z = norm.ppf(0.975)
    # single models test the aggregated statistic, frameworks and composites aggregate the p-values
    p = 2 * norm.sf(np.abs(th / se)) if single else np.median(2 * norm.sf(np.abs(allt)), axis=1)
    return dict(th=th, se=se, t=th / se, p=p,
                lo=np.median(all_th - z * all_se, axis=1), hi=np.median(all_th + z * all_se, axis=1))


def check_table(rec, df, want, labels, key, what):
    rec.step()
    ncol = len(COLS) if want is not None else 4
    if not rec.expect(list(map(str, df.columns))[:ncol] == COLS[:ncol] and df.shape[1] <= len(COLS), f"columns:{key}", f"{what}: columns {list(df.columns)}"):
        return False
    if want is None:
        return rec.expect(df.shape[0] == 0, f"stale:{key}", f"{what}: rows are shown although nothing is fitted: {df.to_dict()}")
    if not rec.expect([str(i) for i in df.index] == [str(i) for i in labels], f"labels:{key}", f"{what}: rows {list(df.index)}, expected {list(labels)}"):
        return False
    for c, k in zip(COLS, ("th", "se", "t", "p", "lo", "hi")):
        if not close(df[c].to_numpy(dtype=float), want[k], rtol=1e-7, atol=1e-12):
            return rec.fail(f"value:{key}:{k}", f"{what}: column {c} shows {df[c].to_numpy()}, the current value is {want[k]}")
    return True


def check_printed_table(rec, text, want, labels, key, what, start="Fit summary"):
    """the table of the printed form: one row per label, every number shown is the current one"""
    body = text.split(start, 1)
    if not rec.expect(len(body) == 2, f"print-section:{key}", f"{what}: no section '{start}'"):
        return
    body = body[1]
    if want is None:
        rec.expect(not re.search(r"\d\.\d{3}", body), f"print-stale:{key}", f"{what}: numbers are printed although nothing is fitted: {body[-200:]}")
        return
    flat = [r.strip() for r in body.splitlines() if r.strip()]
    # pandas wraps wide tables; collect the cells of every label in order of appearance
    cells = {str(l): [] for l in labels}
    for l in flat:
        w = l.split()
        if w[0] in cells and len(w) > 1:
            cells[w[0]] += w[1:]
    for i, l in enumerate(labels):
        got = [c for c in cells[str(l)] if c != "\\"]
        vals = [want[k][i] for k in ("th", "se", "t", "p", "lo", "hi")]
        rec.step()
        if not (len(got) == 6 and all(printed_close(g, v) for g, v in zip(got, vals))):
            rec.fail(f"print-value:{key}", f"{what}: row {l} is printed as {got}, the current values are {vals}")
            return


def line_of(text, label):
    ls = [l for l in text.splitlines() if l.startswith(label)]
    return ls[0][len(label):].strip() if len(ls) == 1 else None


def check_roles(rec, text, roles, n, key, what):
    """roles: list of (label, names or None); None: the line must not name a column"""
    for label, names in roles:
        rec.step()
        got = line_of(text, label)
        if names == "absent":
            rec.expect(got is None, f"roles:{key}:{label}", f"{what}: line '{label}' is printed: {got}")
            continue
        if got is None:
            rec.fail(f"roles:{key}:{label}", f"{what}: line '{label}' is missing")
            continue
        shown = re.findall(r"[A-Za-z_][\w\.]*", got)
        want = ["None"] if names is None else list(names)
        rec.expect(shown == want, f"roles:{key}:{label}", f"{what}: '{label}' shows {shown}, the roles in force are {want}")
    got = line_of(text, "No. Observations:")
    rec.expect(got == str(n), f"roles:{key}:n", f"{what}: number of observations {got}, not {n}")


def data_roles(cfg, df, cluster=None):
    kw = cfg.data_kw
    z = kw.get("z_cols")
    r = [("Outcome variable:", ["y"]), ("Treatment variable(s):", cfg.treats), ("Covariates:", cfg.xcols(df)),
         ("Instrument variable(s):", None if z is None else [z] if isinstance(z, str) else z),
         ("Time variable:", [kw["t_col"]] if "t_col" in kw else "absent"), ("Score/Selection variable:", [kw["s_col"]] if "s_col" in kw else "absent")]
    if cluster:
        r.append(("Cluster variable(s):", cluster))
    return r


# ------------------------------------------------------------------ subjects
def norm_text(s):
    return re.sub(r"\s+", " ", s)


def check_single(rec, S, m, a, where):
    cfg, key = S.cfg, S.name
    want = None
    if a["fit"]:
        fw = m.framework
        want, want_fw = (stats(m.all_coef, m.all_se, fw.var_scaling_factors, q) for q in (True, False))
    if not a["loose"]:
        check_table(rec, m.summary, want, cfg.treats, key, f"summary {where}")
        if want is not None and m.framework is not None:
            check_table(rec, m.framework.summary, want_fw, cfg.treats, key + ":fw", f"framework summary {where}")
    text = str(m)
    what = f"printed model {where}"
    rec.expect(type(m).__name__ in text.splitlines()[0], f"print-class:{key}", f"{what}: header {text.splitlines()[0]}")
    check_roles(rec, text, data_roles(cfg, S.df, getattr(S, "ccols", None)), len(S.df), key, what)
    sc = line_of(text, "Score function:")
    rec.expect(sc == str(m.score) if not callable(m.score) else sc is not None, f"print-score:{key}", f"{what}: score {sc}, in force: {m.score}")
    if isinstance(cfg.kw.get("score"), str):
        rec.expect(sc == cfg.kw["score"], f"print-score:{key}", f"{what}: score {sc}, requested {cfg.kw['score']}")
    for arg, (typ, lam) in cfg.args.items():
        want_l = norm_text(str(cfg.learners()[arg]))
        for nm in [arg] if f"Learner {arg}: " in text else [r.name for r in cfg.roles.values() if r.learner == arg]:
            got = text.find(f"Learner {nm}: ")
            block = norm_text(text[got + len(f"Learner {nm}: "):])
            rec.expect(got >= 0 and block.startswith(want_l), f"print-learner:{key}:{nm}", f"{what}: learner {nm} is printed as {block[:80]}, passed in: {want_l}")
    k, r = a["folds"], a["reps"]
    if getattr(S, "ccols", None):
        rec.expect(line_of(text, "No. folds per cluster:") == str(a["per"]), f"print-per-cluster:{key}", f"{what}: folds per cluster {line_of(text, 'No. folds per cluster:')}, in force {a['per']}")
    rec.expect(line_of(text, "No. folds:") == str(k), f"print-folds:{key}", f"{what}: number of folds {line_of(text, 'No. folds:')}, in force {k}")
    rec.expect(line_of(text, "No. repeated sample splits:") == str(r), f"print-reps:{key}", f"{what}: repetitions {line_of(text, 'No. repeated sample splits:')}, in force {r}")
    if not a["loose"]:
        check_printed_table(rec, text, want, cfg.treats, key, what)
        check_printed_losses(rec, cfg, m, text, a, key, what)


def check_printed_losses(rec, cfg, m, text, a, key, what):
    for name in m.params_names:
        hit = [x for x in re.finditer(rf"^Learner {re.escape(name)} (RMSE|Log Loss): ", text, re.M)]
        rec.step()
        if not a["fit"]:
            rec.expect(not hit, f"print-loss-stale:{key}:{name}", f"{what}: a loss of {name} is printed although nothing is fitted")
            continue
        if not rec.expect(len(hit) == 1, f"print-loss:{key}:{name}", f"{what}: {len(hit)} loss lines for {name}"):
            continue
        base = max((x for x in cfg.args if name.startswith(x)), key=len)
        rec.expect((hit[0].group(1) == "Log Loss") == (cfg.args[base][0] == "c"), f"print-loss-kind:{key}:{name}", f"{what}: loss of {name} is labelled {hit[0].group(1)}")
        rest = text[hit[0].end():]
        depth, j = 0, 0
        for j, ch in enumerate(rest):
            depth += (ch == "[") - (ch == "]")
            if depth == 0 and j:
                break
        rows = re.findall(r"\[([^\[\]]+)\]", rest[: j + 1])
        loss = np.asarray(m.nuisance_loss[name])
        if m.predictions is not None and not a["ext"]:
            # from the stored pairs where there are any
            P, T = m.predictions[name], m.nuisance_targets[name]
            ok = np.isfinite(T).any(axis=0)
            if cfg.args[base][0] == "c":
                Q = np.clip(P, 1e-15, 1 - 1e-15)
                ref = -np.nanmean(T * np.log(Q) + (1 - T) * np.log(1 - Q), axis=0) if ok.any() else np.full(P.shape[1:], np.nan)
            else:
                ref = np.sqrt(np.nanmean((T - P) ** 2, axis=0)) if ok.any() else np.full(P.shape[1:], np.nan)
            loss = np.where(ok, ref, loss)
        shown = [r.split() for r in rows]
        good = len(shown) == loss.shape[0] and all(len(s) == loss.shape[1] for s in shown)
        good = good and all(printed_close(s.rstrip("."), v) for row, lr in zip(shown, loss) for s, v in zip(row, lr))
        rec.expect(good, f"print-loss-value:{key}:{name}", f"{what}: losses of {name} printed as {shown}, current {loss.tolist()}")


def check_comp(rec, S, m, a, where):
    labels = m.treatment_levels if S.apos else m.quantiles
    if a["loose"]:
        str(m)
        return
    want = stats(m.all_coef, m.all_se, m.framework.var_scaling_factors, False) if a["fit"] else None
    check_table(rec, m.summary, want, labels, S.name, f"summary {where}")
    text = str(m)
    rec.expect(type(m).__name__ in text.splitlines()[0], f"print-class:{S.name}", f"header {text.splitlines()[0]}")
    check_printed_table(rec, text, want, labels, S.name, f"printed model {where}")
    if a["fit"] and S.apos:
        for ref in (labels[0], labels[-1]):
            c = m.causal_contrast(reference_levels=ref)
            others = [l for l in labels if l != ref]
            w = stats(c.all_thetas, c.all_ses, c.var_scaling_factors, False)
            tab = c.summary
            rec.expect([str(x) for x in tab.index] == [f"{l} vs {ref}" for l in others], f"labels:{S.name}:contrast", f"contrast rows {list(tab.index)} for reference {ref}")
            i_ref = labels.index(ref)
            diff = [np.median(m.all_coef[labels.index(l)] - m.all_coef[i_ref]) for l in others]
            rec.expect(close(w["th"], diff), f"value:{S.name}:contrast", f"contrast values {w['th']} labelled {list(tab.index)}, differences {diff}")
            check_table(rec, tab, w, list(tab.index), S.name + ":contrast", f"summary of contrasts {where}")


def check_sens(rec, S, m, a, where):
    key = S.name
    if not a["fit"]:
        return
    rec.step()
    text = m.sensitivity_summary
    if a["sens"] is None:
        rec.expect("sensitivity_analysis()" in text and not re.search(r"\d\.\d", text), f"sens-stale:{key}", f"{where}: sensitivity report before an analysis: {text[-300:]}")
        return
    sc = SCEN[a["sens"]]
    for nm in ("cf_y", "cf_d", "rho", "level"):
        g = re.search(rf"{nm}=([-+\d\.eE]+)", text)
        rec.expect(g is not None and close(float(g.group(1).rstrip(".")), sc[nm]), f"sens-scenario:{key}:{nm}", f"{where}: report shows {nm}={g and g.group(1)}, last scenario {sc}")
    fw = m.framework
    labels = [str(x) for x in (fw.treatment_names if fw.treatment_names is not None else range(fw.n_thetas))]
    p = m.sensitivity_params
    th = np.median(m.all_coef, axis=1)
    want1 = [p["ci"]["lower"], p["theta"]["lower"], th, p["theta"]["upper"], p["ci"]["upper"]]
    want2 = [np.full(len(labels), sc["null_hypothesis"]), 100 * p["rv"], 100 * p["rva"]]
    # independent bounds
    cf = np.abs(sc["rho"]) * np.sqrt(sc["cf_y"] * sc["cf_d"] / (1 - sc["cf_d"]))
    mb = fw.sensitivity_elements["max_bias"].reshape(fw.n_thetas, fw.n_rep)
    for q, sgn in (("lower", -1), ("upper", 1)):
        b = np.median(m.all_coef + sgn * cf * mb, axis=1)
        rec.expect(close(p["theta"][q], b, rtol=1e-6), f"sens-bounds:{key}:{q}", f"{where}: stored {q} bounds {p['theta'][q]}, formula at the last scenario {b}")
    for title, head, want in (("Bounds with CI", "CI lower theta lower theta theta upper CI upper", want1), ("Robustness Values", "H_0 RV (%) RVa (%)", want2)):
        sec = text.split(title, 1)
        if not rec.expect(len(sec) == 2, f"sens-section:{key}", f"{where}: no section {title}"):
            continue
        ls = sec[1].split("---\n", 1)[-1].split("\n---")[0].splitlines()
        ls = [l for l in ls if l.strip() and "----" not in l]
        hd = norm_text(ls[0]).strip()
        rec.expect(hd == head, f"sens-head:{key}", f"{where}: {title}: columns {hd}")
        for i, lab in enumerate(labels):
            row = ls[1 + i].split() if len(ls) > 1 + i else []
            rec.step()
            w = lab.split()
            ok = row[: len(w)] == w and len(row) - len(w) == len(want) and all(printed_close(g, v[i]) for g, v in zip(row[len(w):], want))
            rec.expect(ok, f"sens-row:{key}:{title}", f"{where}: {title}: row {row}, expected {lab} {[float(v[i]) for v in want]}")


def step(S, m, a, op):
    comp = isinstance(S, Comp)
    if op in ("F", "Fs", "Fn", "Fe"):
        kw = dict(F={}, Fs=dict(store_models=True), Fn=dict(store_predictions=False), Fe={})[op]
        if op == "Fe":
            kw = dict(external_predictions=S.ext(m))
        m.fit(**kw)
        a.update(fit=True, loose=False, sens=None, ext=op == "Fe")
    elif op in ("SA", "SB"):
        S.set_split(m, op[1])
        cur = S.cur_split(m)
        sm = getattr(S, op[1])
        sm = sm[0] if isinstance(S, Clustered) else sm
        a.update(fit=False, loose=False, sens=None, folds=len(sm[0]), reps=len(sm))
        if isinstance(S, Clustered):
            a["per"] = len({tuple(te[0]) for _, te in getattr(S, op[1])[1][0]})
        del cur
    elif op == "D":
        np.random.seed(7)
        m.draw_sample_splitting()
        a.update(loose=True)
    elif op == "P" and not comp:
        for lr, d, p in S.params(m, "P"):
            m.set_ml_nuisance_params(lr, d, p)
    elif op == "B" and a["fit"] and not a["loose"]:
        np.random.seed(3)
        m.bootstrap(n_rep_boot=4)
    elif op in ("S0", "S1") and a["fit"] and not a["loose"]:
        m.sensitivity_analysis(**SCEN[int(op[1])])
        a["sens"] = int(op[1])


def history_case(case, rec):
    S = subject(case["cfg"], case["seed"])
    CTL.reset(log=False)
    comp = isinstance(S, Comp)
    sens = S.apos if comp else (S.cfg.sens and not callable(S.cfg.kw.get("score")))
    ops = ["F", "SA", "SB", "D", "B"] + (["Fn"] if case["depth"] > 1 else [])
    if getattr(S, "wbar", False):
        ops.remove("SB")
    if "biny" in S.name or isinstance(S, Clustered):
        ops.remove("D")
    if isinstance(S, Clustered):
        ops.remove("B")
    if not comp:
        ops += ["P", "Fs"] + (["Fe"] if S.cfg.ext else [])
    if sens:
        ops += ["S0", "S1"]
    if case["first"] not in ops:
        return
    for rest in itertools.product(ops, repeat=case["depth"] - 1):
        seq = (case["first"],) + rest
        m = S.fresh()
        A = S.A[0] if isinstance(S, Clustered) else S.A
        a = dict(fit=False, loose=False, sens=None, ext=False, folds=len(A[0]), reps=len(A))
        if isinstance(S, Clustered):
            a["per"] = len({tuple(te[0]) for _, te in S.A[1][0]})
        rec.trace()
        for i in range(len(seq) + 1):
            if i:
                step(S, m, a, seq[i - 1])
            if i < len(seq) and any(x != ops[0] for x in rest[max(i - 1, 0):]) and i:
                continue  # this prefix is visited with the first continuation
            rec.step()
            rec.state(S.name, seq[:i])
            where = f"of {S.name} after {seq[:i]}"
            before = S.observe(m)
            (check_comp if comp else check_single)(rec, S, m, a, where)
            if sens and not a["loose"]:
                check_sens(rec, S, m, a, where)
            d = O.diff(S.observe(m), before)
            rec.expect(not d, f"changed:{S.name}", f"producing the summaries {where} changed {d}")
            rec.outcome(S.name, a["fit"], a["sens"], np.round(np.nan_to_num(m.coef), 9).tolist() if a["fit"] and not a["loose"] else None)
            if rec.fails:
                return


class Ladder(Single):
    """more repetitions, folds and treatments"""

    def __init__(self, cfg, seed, reps, k):
        super().__init__(cfg, seed)
        B = max(k, 4)
        self.df = cfg.frame(seed, blocks=B)
        b = self.df.block
        self.A = [smpls_from_labels(b, l) for l in ladder_labels(B, k, reps)]
        self.B = [smpls_from_labels(b, l) for l in ladder_labels(B, max(2, k - 1), 1)]

    def fresh(self):
        m = self.cfg.build(self.df, data=self.cfg.data(self.df), n_folds=2, n_rep=2)
        m.set_sample_splitting(self.A)
        return m


def subject(name, seed):
    if name.startswith("CL-"):
        return Clustered(name, seed)
    if name.startswith(("APOS", "QTE")):
        return Comp(name, seed)
    if name.startswith("L:"):
        _, c, r, k = name.split(":")
        return Ladder(catalog(int(r))[c], seed, int(r), int(k))
    return Single(catalog(2)[name], seed)


# ------------------------------------------------------------------ frameworks
def framework_case(case, rec):
    """summaries of every combination of frameworks"""
    import doubleml as dml

    S = Single(catalog(2)["IRM-ate"], case["seed"])
    CTL.reset(log=False)
    ms = []
    for q in range(2):
        m = S.fresh()
        if q:
            m.set_ml_nuisance_params("ml_g0", "d", {"lam": 7.0})
        m.fit()
        ms.append(m.framework)
    A, B = ms
    exprs = {"A": A, "A+B": A + B, "A-B": A - B, "2A": 2.0 * A, "-A": A * -1.0, "[A,B]": dml.concat([A, B]), "[A,-B]": dml.concat([A, B * -1.0]),
             "[A,B]-[B,A]": dml.concat([A, B]) - dml.concat([B, A]), "[A,B,A+B]": dml.concat([A, B, A + B])}
    for nm, f in exprs.items():
        for named in (False, True):
            rec.trace()
            rec.state(nm, named)
            labels = range(f.n_thetas)
            if named:
                labels = [f"par{i}" for i in range(f.n_thetas)][::-1]
                f.treatment_names = list(labels)
            elif f.treatment_names is not None:
                labels = f.treatment_names
            w = stats(f.all_thetas, f.all_ses, f.var_scaling_factors, False)
            check_table(rec, f.summary, w, labels, "framework", f"summary of {nm}")
            for k in (0, 1):
                f.sensitivity_analysis(**SCEN[k])

                class M:  # the report of a framework follows the same rules
                    framework, all_coef, sensitivity_params, sensitivity_summary = f, f.all_thetas, f.sensitivity_params, f.sensitivity_summary

                class N:
                    name = "framework"

                check_sens(rec, N, M, dict(fit=True, sens=k), f"framework {nm}")
        rec.outcome(nm, np.round(f.thetas, 9).tolist())


# ------------------------------------------------------------------ projections and trees
def blp_case(case, rec):
    import pandas as pd

    from doubleml import DoubleMLBLP, DoubleMLPolicyTree

    r = rng_for(case["seed"], "blp")
    n = 24
    y = r.randn(n) + 0.4
    x = r.randn(n)
    bases = {"x": {"one": np.ones(n), "x": x}, "x2": {"x": x, "sq": x**2, "one": np.ones(n)}, "g": {"Group 1": (x > 0) * 1.0, "Group 0": (x <= 0) * 1.0},
             "g3": {"c": (x > 0.5) * 1.0, "a": (x < -0.5) * 1.0, "b": (np.abs(x) <= 0.5) * 1.0}}
    cols = ["coef", "std err", "t", "P>|t|", "[0.025", "0.975]"]
    for (nm, bs), cov in itertools.product(bases.items(), [None, "HC0", "nonrobust"]):
        b = pd.DataFrame(bs)
        m = DoubleMLBLP(y, b, is_gate=nm.startswith("g"))
        rec.trace()
        for when in ("new", "fit", "refit"):
            rec.step()
            rec.state("blp", nm, str(cov), when)
            if when != "new":
                m.fit(**({} if cov is None else dict(cov_type=cov)))
            if when == "refit":
                cov = "HC0"
                m.fit()
            s, text = m.summary, str(m)
            rec.expect(list(s.columns) == cols, "blp:columns", str(list(s.columns)))
            rec.expect("DoubleMLBLP" in text.splitlines()[0], "blp:header", text[:80])
            if when == "new":
                rec.expect(s.shape[0] == 0, "blp:stale", "rows before the fit")
                continue
            X = b.to_numpy(float)
            XtX = np.linalg.inv(X.T @ X)
            be = XtX @ X.T @ y
            e = y - X @ be
            V = XtX * (e @ e) / (n - X.shape[1]) if cov == "nonrobust" else XtX @ (X.T * e**2) @ X @ XtX
            se = np.sqrt(np.diag(V))
            from scipy.stats import t as tdist

            dist = tdist(n - X.shape[1]) if cov == "nonrobust" else norm
            q = dist.ppf(0.975)
            want = [be, se, be / se, 2 * dist.sf(np.abs(be / se)), be - q * se, be + q * se]
            rec.expect([str(i) for i in s.index] == list(bs), "blp:labels", f"rows {list(s.index)}")
            for c, w in zip(cols, want):
                rec.expect(close(s[c].to_numpy(float), w, rtol=1e-6), f"blp:value:{c}", f"{nm} {cov}: {s[c].to_numpy()} vs {w}")
            body = text.split("Fit summary")[1]
            for i, l in enumerate(bs):
                row = [k for k in body.splitlines() if k.startswith(l + " ")]
                got = sum((k[len(l):].split() for k in row), [])
                got = [g for g in got if g != "\\"]
                rec.expect(len(got) == 6 and all(printed_close(g, w[i]) for g, w in zip(got, want)), "blp:print", f"row {l}: {got}, current {[w[i] for w in want]}")
            rec.outcome(nm, np.round(be, 8).tolist())
    for feats, depth in itertools.product(itertools.permutations(["b", "a", "c"], 2), (1, 2, 3)):
        X = pd.DataFrame({f: r.randn(n) for f in feats})
        m = DoubleMLPolicyTree(y, X, depth=depth)
        for when in ("new", "fit"):
            rec.step()
            if when == "fit":
                m.fit()
            s = m.summary
            rec.expect(list(s["Decision Variables"]) == list(feats) and list(s["Max Depth"]) == [depth] * 2, "tree:summary", f"{s.to_dict()} for {feats}, depth {depth}")
            t = str(m)
            body = t.split("Summary", 1)[1]
            rec.expect("DoubleMLPolicyTree" in t.splitlines()[0] and [w for w in body.split() if w in "abc"] == list(feats), "tree:print", t)


# ------------------------------------------------------------------ discontinuity designs
def rd_case(case, rec):
    from checks.C22 import build, frame, quiet

    for fuzzy, cut, iters, reps, kern in itertools.product((False, True), (0.0, 1.5), (1, 2), (1, 2, 3), ("triangular", "uniform")):
        if fuzzy != case["fuzzy"]:
            continue
        df = frame("fuzzy" if fuzzy else "sharp", "f64", "f", case["seed"], cut)
        c = dict(ylearn="reg", fuzzy=fuzzy, folds=2, reps=reps, hfs=None, spec="cutoff", kernel=kern, kw={})
        rec.trace()
        m = build(df, c, cut)
        if m is None:
            continue
        text = str(m)
        rec.expect("fit" in text and not re.search(r"\d\.\d{3}", text), "rd:stale", f"before the fit: {text}")
        for rnd in range(2):
            rec.step()
            rec.state("rd", fuzzy, cut, iters, reps, kern, rnd)
            try:
                with quiet():
                    m.fit(n_iterations=iters if rnd == 0 else 3 - iters)
            except np.linalg.LinAlgError:
                break
            text = str(m)
            rows = {k: [l for l in text.splitlines() if l.startswith(k)] for k in ("Conventional", "Robust", "Design Type:", "Cutoff:", "First Stage Kernel:", "Final Bandwidth:")}
            if not rec.expect(all(len(v) == 1 for k, v in rows.items()), "rd:rows", text):
                continue
            coef, se = np.median(m.all_coef, axis=1), m.se
            vals = [coef[0], se[0], coef[0] / se[0], 2 * norm.sf(abs(coef[0] / se[0])), m.ci[0, 0], m.ci[0, 1]]
            tok = r"[-+]?\d+\.\d+(?:e[-+]\d+)?"
            got = re.findall(tok, rows["Conventional"][0])
            rec.expect(len(got) == 6 and all(printed_close(g, v) for g, v in zip(got, vals)), "rd:conventional", f"printed {got}, current {vals}")
            rob = [coef[2] / se[2], 2 * norm.sf(abs(coef[2] / se[2])), m.ci[2, 0], m.ci[2, 1]]
            got = re.findall(tok, rows["Robust"][0])
            rec.expect(len(got) == 4 and all(printed_close(g, v) for g, v in zip(got, rob)), "rd:robust", f"printed {got}, current {rob}")
            rec.expect(rows["Design Type:"][0].split()[-1] == ("Fuzzy" if fuzzy else "Sharp"), "rd:design", rows["Design Type:"][0])
            rec.expect(float(rows["Cutoff:"][0].split()[-1]) == cut, "rd:cutoff", rows["Cutoff:"][0])
            rec.expect(rows["First Stage Kernel:"][0].split()[-1] == kern, "rd:kernel", rows["First Stage Kernel:"][0])
            hs = text.split("Final Bandwidth:")[1].strip(" []\n").split()
            rec.expect(len(hs) == reps and all(printed_close(g, v) for g, v in zip(hs, m.h)), "rd:bandwidth", f"printed {hs}, current {m.h}")
            rec.outcome(np.round(coef, 8).tolist())


# ------------------------------------------------------------------ data objects
def data_case(case, rec):
    """every sequence of role assignments: the printed roles are those in force"""
    import pandas as pd

    import doubleml as dml

    n = case["n"]
    df = pd.DataFrame(rng_for(1, "data").randn(n, 9), columns=list("ydeabcztk"))
    df["t"] = (df.t > 0) * 1.0
    df["k"] = np.arange(n) % 4
    moves = {"d_cols": [["d"], ["e"], ["e", "d"]], "x_cols": [["a"], ["b", "a"], ["c", "b", "a"]], "z_cols": [None, ["z"], "c"], "t_col": [None, "t"], "s_col": [None, "t"], "y_col": ["y", "c"]}
    cl = case["cluster"]
    if cl:
        moves["cluster_cols"] = ["k", ["k"]]
    flat = [(r, v) for r, vs in moves.items() for v in vs]
    for seq in itertools.product(flat, repeat=case["depth"]):
        roles = dict(d_cols=["d"], x_cols=["a", "b"], z_cols=None, t_col=None, s_col=None, y_col="y")
        m = dml.DoubleMLClusterData(df, "y", "d", cluster_cols="k", x_cols=["a", "b"]) if cl else dml.DoubleMLData(df, "y", "d", x_cols=["a", "b"])
        rec.trace()
        for i in range(len(seq) + 1):
            if i:
                r, v = seq[i - 1]
                try:
                    setattr(m, r, v)
                    if r != "cluster_cols":
                        roles[r] = [v] if isinstance(v, str) and r in ("z_cols",) else v
                except ValueError:
                    pass
            rec.step()
            rec.state(cl, repr(sorted(roles.items(), key=str)))
            want = [("Outcome variable:", [roles["y_col"]]), ("Treatment variable(s):", roles["d_cols"]), ("Covariates:", roles["x_cols"]),
                    ("Instrument variable(s):", roles["z_cols"]), ("Time variable:", [roles["t_col"]] if roles["t_col"] else "absent"),
                    ("Score/Selection variable:", [roles["s_col"]] if roles["s_col"] else "absent"), ("Cluster variable(s):", ["k"] if cl else "absent")]
            text = str(m)
            rec.expect(type(m).__name__ in text.splitlines()[0], "data:header", text.splitlines()[0])
            check_roles(rec, text, want, n, "data", f"printed data object after {seq[:i]}")
            if rec.fails:
                return
        rec.outcome(repr(sorted(roles.items(), key=str)))


KINDS = dict(hist=history_case, fw=framework_case, blp=blp_case, rd=rd_case, data=data_case)


def case_fn(case, rec):
    KINDS[case["kind"]](case, rec)


DEEP = ["PLR-po", "PLR-iv-2d", "IRM-ate", "PQ-1", "DID-obs"]
COMPS = ["APOS", "QTE-PQ", "QTE-LPQ", "QTE-CVaR"]
CLUST = ["CL-PLR1", "CL-PLR2", "CL-PLIV2", "CL-IRM1"]
OPS = ["F", "SA", "SB", "D", "B", "Fn", "P", "Fs", "Fe", "S0", "S1"]


def cases(tier, seed):
    thor = tier == "thorough"
    for s in [seed] if not thor else [seed, seed + 5]:
        for nm in COMPS + CLUST + list(catalog()):
            depth = 2 if not thor else 3
            for o in OPS:
                yield dict(kind="hist", cfg=nm, name=nm, first=o, depth=depth, seed=s)
        if not thor:
            for nm in DEEP:
                for o in ("F", "SB"):
                    yield dict(kind="hist", cfg=nm, name=nm + "+", first=o, depth=3, seed=s)
        for c in ("PLR-2d", "PLR-bin", "IRM-ate", "PLIV-2z", "SSM-mar", "DIDCS-obs") if not thor else list(catalog()):
            for r, k in ((3, 3), (7, 5), (1, 10)):
                for o in ("F", "SB"):
                    yield dict(kind="hist", cfg=f"L:{c}:{r}:{k}", name=f"L:{c}:{r}:{k}", first=o, depth=2, seed=s)
        yield dict(kind="fw", name="framework", seed=s)
        yield dict(kind="blp", name="blp", seed=s)
        for f in (False, True):
            yield dict(kind="rd", name="rd", fuzzy=f, seed=s)
        for cl in (False, True):
            for n in (8, 13):
                yield dict(kind="data", name="data", cluster=cl, n=n, depth=2 if not thor else 3, seed=s)


if __name__ == "__main__":
    Check("C26", case_fn, cases, rule="all histories up to the depth of fits with different storage and external options, splittings, redraw, "
          "parameters, bootstrap and two sensitivity scenarios on every model class, composite and clustered model; all role assignment "
          "sequences on data objects; frameworks from arithmetic, projections, policy trees and discontinuity designs before, after and "
          "between fits; at every state each table and printed report is parsed and compared with the state in force",
          assumptions=["numbers are printed rounded; displayed digits are compared"]).main()
