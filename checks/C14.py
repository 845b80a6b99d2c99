"""C14 effect algebra: every expression tree over a small set of frameworks (fitted models, clustered models and hand-built ones)
up to a size is evaluated on the real objects and compared with the linear combination computed from the leaves; operands are
monitored; every incompatible pair and malformed dictionary must be rejected."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc import observe as O
from mc.catalog import catalog, idmap, rng_for, smpls_from_labels
from mc.clusters import cluster_cols, cluster_frame, cluster_model, cluster_se, cluster_split
from mc.core import Check, Fail, scaled_close
from mc.spy import CTL

SCALARS = [-2, 0.5, 0, -1.0, 3]


# ------------------------------------------------------------------ leaves
def raw(n, p, r, seed, sens=0, name="raw"):
    """dictionary with consistent standard errors"""
    rng = rng_for(seed, name, n, p, r, sens)
    psi = rng.randn(n, p, r)
    psi -= psi.mean(axis=0)
    th = rng.randn(p, r)
    vs = np.full(p, float(n))
    ses = np.sqrt((psi ** 2).mean(0) / vs[:, None])
    d = {"all_thetas": th, "all_ses": ses, "var_scaling_factors": vs, "scaled_psi": psi}
    d["thetas"], d["ses"] = agg(th, ses, vs)
    if sens:
        d["sensitivity_elements"] = {"max_bias": rng.rand(1, p, r), "psi_max_bias": rng.randn(n, p, r)}
        if sens == 2:
            d["sensitivity_elements"].update({"sigma2": 0.1 + rng.rand(1, p, r), "nu2": 0.1 + rng.rand(1, p, r)})
    return d


def agg(th, ses, vs):
    m = np.median(th, axis=1)
    v = np.median(ses ** 2 + (th - m[:, None]) ** 2 / vs[:, None], axis=1)
    return m, np.sqrt(v)


def leaves(case):
    """-> list of (framework, cluster information or None)"""
    import doubleml as dml

    kind, seed = case["kind"], case["seed"]
    if kind == "raw":
        p, r, s = case["p"], case["r"], case["sens"]
        return [(dml.DoubleMLFramework(raw(case["n"], p, r, seed, s[i], f"l{i}")), None) for i in range(3)]
    if kind == "fitted":
        out = []
        reps = [[0, 1, 0, 1], [0, 0, 1, 1], [0, 1, 1, 0]][:case["r"]]
        for nm, sd in case["models"]:
            cfg = catalog(len(reps))[nm]
            df = cfg.frame(seed, blocks=4, per_cell=case["pc"])
            if sd:
                df["y"] = df["y"] + 0.3 * sd * df["X1"] ** 2
            m = cfg.build(df, n_rep=len(reps))
            m.set_sample_splitting([smpls_from_labels(df.block, l) for l in reps])
            CTL.reset(idmap(df), log=False)
            m.fit()
            out.append((m.framework, None))
        return out
    if kind == "cluster":
        ways, lay = case["ways"], case["layout"]
        labs = [([0, 1, 0, 1], [0, 0, 1, 1]), ([0, 0, 1, 1], [0, 1, 1, 0]), ([0, 1, 1, 1], [0, 1, 0, 0])][:case["r"]]
        out = []
        for nm, sd in case["models"]:
            cfg = catalog(len(labs))[nm]
            df = cluster_frame(cfg, seed, ways=ways, layout=lay, per_cell=case["pc"])
            if sd:
                df["y"] = df["y"] + 0.3 * sd * df["X1"] ** 2
            cc = cluster_cols(ways)
            sp = [cluster_split(df, cc, l[:ways]) for l in labs]
            m = cluster_model(cfg, df, cc, sp)
            CTL.reset(idmap(df), log=False)
            m.fit()
            out.append((m.framework, (df[cc].to_numpy(dtype=float), sp)))
        return out
    raise AssertionError(kind)


# ------------------------------------------------------------------ reference values
class Ref:
    """value of an expression: estimates, standardised scores and bias bounds"""

    def __init__(self, th, psi, vs, cl, sens, names=None, ses=None):
        self.th, self.psi, self.vs, self.cl, self.sens = th, psi, vs, cl, sens
        self.ses = ses if ses is not None else self.se()

    def se(self):
        n, p, r = self.psi.shape
        if self.cl is None:
            return np.sqrt((self.psi ** 2).mean(0) / self.vs[:, None])
        out = np.empty((p, r))
        cv, sp = self.cl
        for i in range(p):
            for j in range(r):
                out[i, j], _ = cluster_se(self.psi[:, i, j], np.ones(n), cv, sp[j][0], sp[j][1])
        return out


def leaf_ref(fw, cl):
    s = None
    if fw.sensitivity_elements is not None:
        s = {k: v.copy() for k, v in fw.sensitivity_elements.items()}
    return Ref(fw.all_thetas.copy(), fw.scaled_psi.copy(), fw.var_scaling_factors.copy(), cl, s, ses=fw.all_ses.copy())


def ref_add(a, b, sign):
    s = None
    if a.sens is not None and b.sens is not None:
        s = {k: a.sens[k] + b.sens[k] for k in ("max_bias", "psi_max_bias")}
    return Ref(a.th + sign * b.th, a.psi + sign * b.psi, a.vs, a.cl, s)


def ref_mul(a, c):
    s = None
    if a.sens is not None:
        s = {k: abs(c) * a.sens[k] for k in ("max_bias", "psi_max_bias")}
        if "nu2" in a.sens:
            s["sigma2"], s["nu2"] = a.sens["sigma2"], c * c * a.sens["nu2"]
    return Ref(c * a.th, c * a.psi, a.vs, a.cl, s)


def ref_cat(rs):
    s = None
    if all(r.sens is not None for r in rs):
        keys = ["max_bias", "psi_max_bias"] + (["sigma2", "nu2"] if all("nu2" in r.sens for r in rs) else [])
        s = {k: np.concatenate([r.sens[k] for r in rs], axis=1) for k in keys}
    return Ref(np.concatenate([r.th for r in rs]), np.concatenate([r.psi for r in rs], axis=1), np.concatenate([r.vs for r in rs]),
               None, s)


def check(rec, key, fw, ref, what):
    th, ses = agg(ref.th, ref.ses, ref.vs)
    tests = {"all_thetas": (fw.all_thetas, ref.th), "scaled_psi": (fw.scaled_psi, ref.psi), "all_ses": (fw.all_ses, ref.ses),
             "thetas": (fw.thetas, th), "ses": (fw.ses, ses), "var_scaling_factors": (fw.var_scaling_factors, ref.vs)}
    if ref.sens is not None:
        if fw.sensitivity_elements is None:
            rec.fail(f"{key}:sens-missing", f"{what}: no sensitivity elements")
            return False
        for k, v in ref.sens.items():
            tests["sens." + k] = (fw.sensitivity_elements.get(k), v)
    elif fw.sensitivity_elements is not None:
        rec.fail(f"{key}:sens-extra", f"{what}: sensitivity elements although an operand has none")
        return False
    for k, (a, b) in tests.items():
        if a is None or not scaled_close(a, b, rtol=1e-8):
            rec.fail(f"{key}:{k}", f"{what}: {k} is {None if a is None else np.ravel(a)[:4]}, expected {np.ravel(b)[:4]}")
            return False
    if np.any(fw.all_ses < 0) or np.any(fw.ses < 0):
        rec.fail(f"{key}:negative-se", f"{what}: negative standard error")
        return False
    if (fw.n_thetas, fw.n_rep, fw.n_obs) != (ref.psi.shape[1], ref.psi.shape[2], ref.psi.shape[0]):
        rec.fail(f"{key}:dims", f"{what}: dimensions")
        return False
    if fw.boot_t_stat is not None or fw.sensitivity_params is not None:
        rec.fail(f"{key}:inherited", f"{what}: the result of an operation carries bootstrap or sensitivity results")
        return False
    return True


# ------------------------------------------------------------------ exploration
def tree_case(case, rec):
    """all values reachable with at most `depth` operations; every operation is applied to every pair of reached values"""
    import doubleml as dml

    lv = leaves(case)
    lv[0][0].treatment_names = [f"t{i}" for i in range(lv[0][0].n_thetas)]
    pool = [(f"L{i}", fw, leaf_ref(fw, cl)) for i, (fw, cl) in enumerate(lv)]
    key = case["name"]
    for nm, fw, ref in pool:
        if not check(rec, f"leaf:{key}", fw, ref, nm):
            return
    if case["kind"] == "cluster":
        for nm, fw, ref in pool:  # the leaf's own standard errors follow from its standardised scores
            if not scaled_close(ref.se(), ref.ses, rtol=1e-7):
                rec.fail(f"leaf-se:{key}", f"{nm}: standard errors {ref.ses} do not follow from the standardised scores ({ref.se()})")
                return
    snaps = [(nm, fw, O.framework(fw)) for nm, fw, _ in pool]
    boots = case.get("boot")
    if boots:
        np.random.seed(3)
        pool[0][1].bootstrap(n_rep_boot=3)
        snaps[0] = (snaps[0][0], snaps[0][1], O.framework(snaps[0][1]))
    level = list(pool)
    scal = SCALARS if case["deep"] else SCALARS[:3]
    for d in range(case["depth"]):
        new = []
        for (na, fa, ra), (nb, fb, rb) in itertools.product(level, pool):
            for op, sign in (("+", 1), ("-", -1)):
                what = f"({na}{op}{nb})"
                got = fa + fb if sign == 1 else fa - fb
                new.append((what, got, ref_add(ra, rb, sign)))
                if d and na != nb:
                    what = f"({nb}{op}{na})"
                    got = fb + fa if sign == 1 else fb - fa
                    new.append((what, got, ref_add(rb, ra, sign)))
        for (na, fa, ra), c in itertools.product(level, scal):
            new.append((f"({c}*{na})", c * fa, ref_mul(ra, c)))
            if not d:
                new.append((f"({na}*{c})", fa * c, ref_mul(ra, c)))
                new.append((f"({na}*np{c})", fa * np.float64(c), ref_mul(ra, c)))
        if case["kind"] != "cluster":
            sizes = (1, 2, 3) if d == 0 else (2,)
            for k in sizes:
                for tup in itertools.product(level if d == 0 else level[: case.get("cat", 40)], *([pool] * (k - 1))):
                    fws = [t[1] for t in tup]
                    new.append((f"cat[{','.join(t[0] for t in tup)}]", dml.concat(fws), ref_cat([t[2] for t in tup])))
        for nm, fw, ref in new:
            rec.state(key, nm)
            rec.step()
            rec.trace()
            if not check(rec, f"op:{key}", fw, ref, nm):
                return
            rec.outcome(np.round(fw.thetas, 8).tolist(), np.round(fw.ses, 8).tolist())
        for nm, fw, s in snaps:
            dd = O.diff(O.framework(fw), s)
            if dd:
                rec.fail(f"operand:{key}", f"operand {nm} changed at {dd}")
                return
        p0, n0 = pool[0][1].n_thetas, None
        level = [t for t in new if t[1].n_thetas == p0 and not t[0].endswith("*0)")]
        if not case["deep"]:
            level = level[:30]
        # results must not be affected by later changes of what was computed from them
        for nm, fw, _ in new[:6]:
            fw.treatment_names = [f"n{i}" for i in range(fw.n_thetas)]
            if case["kind"] != "cluster":
                np.random.seed(1)
                fw.bootstrap(n_rep_boot=2)
    for nm, fw, s in snaps:
        dd = O.diff(O.framework(fw), s)
        rec.expect(dd is None, f"operand:{key}", f"operand {nm} changed at {dd} when results were used")


def laws_case(case, rec):
    """identities between differently built expressions"""
    import doubleml as dml

    lv = leaves(case)
    a, b, c = [l[0] for l in lv]
    key = case["name"]

    def same(x, y, what):
        rec.state(key, what)
        rec.step()
        rec.trace()
        for k in ("all_thetas", "thetas", "all_ses", "ses", "scaled_psi"):
            g, w = getattr(x, k), getattr(y, k)
            sc = max(np.abs(w).max(), np.abs(getattr(a, k)).max(), 1e-12)
            if not np.allclose(g, w, rtol=1e-7, atol=1e-7 * sc):
                rec.fail(f"law:{key}:{k}", f"{what}: {k} {np.ravel(g)[:3]} vs {np.ravel(w)[:3]}")
                return

    same(a + b, b + a, "a+b=b+a")
    same((a + b) + c, a + (b + c), "(a+b)+c=a+(b+c)")
    same(a - b, a + (-1) * b, "a-b=a+(-1)b")
    same(b - a, -1 * (a - b), "b-a=-(a-b)")
    same(a + a, 2 * a, "a+a=2a")
    same((a - b) + b, a * 1, "(a-b)+b=a")
    same(a + 0 * b, a * 1.0, "a+0b=a")
    for s in (-3, 0.25, 7):
        same(s * (a + b), s * a + s * b, f"{s}(a+b)")
        same((s * a) * 2, (2 * s) * a, f"({s}a)2")
        same(s * a + a, (s + 1) * a, f"{s}a+a")
    if case["kind"] != "cluster":
        same(dml.concat([a, b]) + dml.concat([b, c]), dml.concat([a + b, b + c]), "concat distributes over +")
        same(-2 * dml.concat([a, b, c]), dml.concat([-2 * a, -2 * b, -2 * c]), "concat distributes over *")
        same(dml.concat([dml.concat([a, b]), c]), dml.concat([a, b, c]), "concat associates")
        # joint statistics of a concatenation use the same weights for all its parts
        f = dml.concat([a, b, a])
        np.random.seed(case["seed"])
        f.bootstrap(n_rep_boot=5)
        rec.expect(np.allclose(f.boot_t_stat[:, : a.n_thetas], f.boot_t_stat[:, -a.n_thetas:]), f"law:{key}:boot", "weights differ within a concatenation")


def reject_case(case, rec):
    import doubleml as dml

    seed = case["seed"]
    F = dml.DoubleMLFramework

    def expect(fn, excs, key, what):
        rec.state(key, what)
        rec.step()
        rec.trace()
        try:
            fn()
        except excs as e:
            rec.outcome(key, type(e).__name__)
            return
        except Exception as e:
            rec.fail(f"reject-type:{key}", f"{what}: {type(e).__name__}: {e}")
            return
        rec.fail(f"accepted:{key}", f"{what} was accepted")

    base = F(raw(6, 2, 2, seed, 0, "b"))
    dims = list(itertools.product((5, 6), (1, 2), (1, 2, 3)))
    for n, p, r in dims:
        o = F(raw(n, p, r, seed, 0, "o"))
        ok = (n, p, r) == (6, 2, 2)
        okc = n == 6 and r == 2
        before = O.framework(base)
        for nm, fn, fine in (("add", lambda: base + o, ok), ("sub", lambda: base - o, ok), ("radd", lambda: o + base, ok),
                             ("rsub", lambda: o - base, ok), ("concat", lambda: dml.concat([base, o]), okc),
                             ("concat3", lambda: dml.concat([base, base, o]), okc)):
            if fine:
                fn()
            else:
                expect(fn, (ValueError,), f"dims:{nm}", f"{nm} of (6,2,2) and ({n},{p},{r})")
        rec.expect(O.diff(O.framework(base), before) is None, "reject-operand", "operand changed by a rejected operation")
    # clustered with unclustered, different clusters
    cl = {}
    for ways in (1, 2):
        cfg = catalog(2)["PLR-po"]
        df = cluster_frame(cfg, seed, ways=ways, per_cell=8)
        for var in ("a", "b"):
            if var == "b":
                df = df.copy()
                df["c1"] = np.roll(df["c1"].to_numpy(), 1) if ways == 2 else np.repeat([0.0, 1.0, 2.0, 3.0], len(df) // 4)[::-1]
                df["c1"] = np.where(np.arange(len(df)) == 0, df["c1"].iloc[len(df) // 2], df["c1"])
            cc = cluster_cols(ways)
            sp = [cluster_split(df, cc, ([0, 1, 0, 1], [0, 0, 1, 1])[:ways]), cluster_split(df, cc, ([0, 0, 1, 1], [0, 1, 0, 1])[:ways])]
            m = cluster_model(cfg, df, cc, sp)
            CTL.reset(idmap(df), log=False)
            m.fit()
            cl[ways, var] = m.framework
        n = len(df)
        pl = F(raw(n, 1, 2, seed, 0, "p"))
        for nm, fn in (("add", lambda: pl + cl[ways, "a"]), ("sub", lambda: cl[ways, "a"] - pl), ("add2", lambda: cl[ways, "a"] + pl)):
            expect(fn, (ValueError,), f"cluster:{nm}", f"{nm} of clustered and unclustered ({ways} ways)")
        expect(lambda: dml.concat([pl, cl[ways, "a"]]), (ValueError, NotImplementedError), "cluster:concat", "concat of clustered and unclustered")
        expect(lambda: dml.concat([cl[ways, "a"], cl[ways, "a"]]), (NotImplementedError,), "cluster:concat2", "concat of clustered")
        expect(lambda: cl[ways, "a"].bootstrap(), (NotImplementedError,), "cluster:bootstrap", "bootstrap of clustered")
        expect(lambda: cl[ways, "a"] + cl[ways, "b"], (ValueError,), "cluster:vars", f"sum of differently clustered effects ({ways} ways)")
        expect(lambda: cl[ways, "a"] - cl[ways, "b"], (ValueError,), "cluster:vars", f"difference of differently clustered effects ({ways} ways)")
    expect(lambda: cl[1, "a"] + cl[2, "a"], (ValueError,), "cluster:ways", "sum of one- and two-way clustered effects")
    # operand types
    for x in (1, 1.5, None, "a", [1.0], np.ones(2), {"a": 1}, (base,), object()):
        expect(lambda: base + x, (TypeError,), f"type:add:{type(x).__name__}", f"base + {type(x).__name__}")
        expect(lambda: base - x, (TypeError,), f"type:sub:{type(x).__name__}", f"base - {type(x).__name__}")
        if not isinstance(x, np.ndarray):
            expect(lambda: x + base, (TypeError,), f"type:radd:{type(x).__name__}", f"{type(x).__name__} + base")
            expect(lambda: x - base, (TypeError,), f"type:rsub:{type(x).__name__}", f"{type(x).__name__} - base")
        if not isinstance(x, (int, float)):
            expect(lambda: base * x, (TypeError,), f"type:mul:{type(x).__name__}", f"base * {type(x).__name__}")
        expect(lambda: dml.concat([base, x]), (TypeError,), f"type:concat:{type(x).__name__}", f"concat with {type(x).__name__}")
    expect(lambda: base * base, (TypeError,), "type:mul:framework", "product of frameworks")
    expect(lambda: dml.concat([]), (TypeError,), "type:concat:empty", "concat of nothing")
    # malformed dictionaries
    for sens in (0, 1, 2):
        good = raw(6, 2, 2, seed, sens, "g")
        F(dict(good))
        for k in list(good):
            if k != "sensitivity_elements":
                b = dict(good)
                b.pop(k)
                expect(lambda: F(b), (ValueError,), f"dict:missing:{k}", f"dictionary without {k}")
                if k == "scaled_psi":
                    continue
                arr = good[k]
                for nm, bad in (("short", arr[:-1]), ("long", np.concatenate([arr, arr])), ("ndim", arr[..., None]),
                                ("T", np.vstack([arr, arr, arr]) if arr.ndim == 2 else arr.reshape(1, -1))):
                    expect(lambda: F(dict(good, **{k: bad})), (ValueError,), f"dict:shape:{k}:{nm}", f"{k} of shape {bad.shape}")
        if sens:
            se = good["sensitivity_elements"]
            for k in ("max_bias", "psi_max_bias"):
                expect(lambda: F(dict(good, sensitivity_elements={a: v for a, v in se.items() if a != k})), (ValueError,), f"dict:sens:{k}", f"sensitivity elements without {k}")
            for k in se:
                for nm, bad, ex in (("shape", se[k][:, :1], ValueError), ("type", se[k].tolist(), TypeError), ("rep", se[k][:, :, :1], ValueError)):
                    expect(lambda: F(dict(good, sensitivity_elements=dict(se, **{k: bad}))), (ex,), f"dict:sens:{k}:{nm}", f"sensitivity element {k} ({nm})")
            if sens == 2:
                for k in ("sigma2", "nu2"):
                    for i in np.ndindex(se[k].shape):
                        bad = se[k].copy()
                        bad[i] = -0.1
                        expect(lambda: F(dict(good, sensitivity_elements=dict(se, **{k: bad}))), (ValueError,), f"dict:neg:{k}", f"negative {k}")
    for x in (None, [], "a", 1):
        expect(lambda: F(x), (TypeError,), f"dict:type:{type(x).__name__}", "no dictionary")
    for bad, ex in (("t", TypeError), (["a"], ValueError), (["a", "b", "c"], ValueError), (["a", 1], TypeError), (("a", "b"), TypeError)):
        expect(lambda: F(dict(raw(6, 2, 2, seed), treatment_names=bad)), (ex,), f"names:ctor:{bad}", "treatment names")

        def st():
            base.treatment_names = bad

        expect(st, (ex,), f"names:set:{bad}", "treatment names")
        rec.expect(base.treatment_names is None, "names:changed", "rejected names have been stored")
    g = raw(6, 2, 2, seed)
    expect(lambda: F(dict(g, is_cluster_data=True)), (ValueError,), "dict:cluster:none", "clustered without cluster_dict")
    expect(lambda: F(dict(g, is_cluster_data=True, cluster_dict=[1])), (TypeError,), "dict:cluster:type", "cluster_dict no dict")
    expect(lambda: F(dict(g, is_cluster_data=1)), (TypeError,), "dict:cluster:bool", "is_cluster_data no bool")
    full = {"smpls": 1, "smpls_cluster": 1, "cluster_vars": 1, "n_folds_per_cluster": 1}
    for k in full:
        expect(lambda: F(dict(g, is_cluster_data=True, cluster_dict={a: 1 for a in full if a != k})), (ValueError,), f"dict:cluster:{k}", f"cluster_dict without {k}")


def case_fn(case, rec):
    if case.get("reject"):
        reject_case(case, rec)
    elif case.get("laws"):
        laws_case(case, rec)
    else:
        tree_case(case, rec)


FITTED = [("plr", [("PLR-po", 0), ("PLR-po", 1), ("PLR-iv", 0)], 4), ("irm", [("IRM-ate", 0), ("IRM-atte", 0), ("IRM-ate-norm", 1)], 4),
          ("mix", [("IRM-ate", 0), ("PQ-1", 0), ("IIVM", 0)], 4), ("two", [("PLR-2d", 0), ("PLR-2d", 1), ("PLR-iv-2d", 0)], 4),
          ("pliv", [("PLIV-po", 0), ("PLIV-2z", 0), ("PLR-po", 0)], 4)]


def cases(tier, seed):
    thor = tier == "thorough"
    base = []
    for n, p, r in itertools.product((1, 4), (1, 2), (1, 2, 3, 4)):
        for s in ((0, 0, 0), (1, 1, 1), (2, 2, 2), (2, 1, 2), (2, 0, 1)):
            if n == 1 and s != (0, 0, 0):
                continue
            base.append(dict(kind="raw", name=f"raw-{p}-{s}", n=n, p=p, r=r, sens=list(s), boot=r == 2))
    for r in (1, 2, 3):
        for nm, ms, pc in FITTED:
            if nm == "mix":
                continue
            base.append(dict(kind="fitted", name=f"fit-{nm}", models=ms, r=r, pc=pc))
        for ways, lay in itertools.product((1, 2), ("even", "uneven", "holes")):
            for nm, ms, pc in FITTED[:2]:
                base.append(dict(kind="cluster", name=f"cl{ways}-{lay}-{nm}", ways=ways, layout=lay, models=ms, r=r, pc=8))
    for n, p, r in ((4, 5, 6), (4, 7, 5), (4, 1, 12)):
        yield dict(kind="raw", name=f"raw-{p}-large", n=n, p=p, r=r, sens=[2, 0, 1] if n > 1 else [0, 0, 0], boot=False, seed=seed, laws=True)
        yield dict(kind="raw", name=f"raw-{p}-large", n=n, p=p, r=r, sens=[2, 0, 1] if n > 1 else [0, 0, 0], boot=True, seed=seed, depth=1, deep=True, cat=10)
    for b in base:
        deep = thor or (b["kind"] == "raw" and b["r"] == 2)
        depth = 2 if not thor or b["kind"] != "raw" else 3
        yield dict(b, seed=seed, depth=depth, deep=deep, cat=40 if thor else 10)
        if b.get("n") != 1:
            yield dict(b, seed=seed, laws=True)
    yield dict(reject=True, name="reject", seed=seed)


if __name__ == "__main__":
    Check("C14", case_fn, cases, rule="all expression trees over three operands with +, -, scalar multiples and concatenation up to the depth, "
          "for hand-built, fitted and clustered operands with one to four repetitions; algebraic laws; all incompatible operand shapes, "
          "types and malformed dictionaries").main()
