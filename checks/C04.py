"""C04 clustered data: every (cluster counts, folds, repetitions, layout) drawn splitting is checked against the cluster partition
invariants; every assignment of clusters to folds is executed over the model catalogue with spy learners and compared with a
pairwise reference of the cluster-weighted score and the multiway cluster-robust variance."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc.catalog import catalog, idmap, make_df, rng_for
from mc.clusters import LAYOUTS, cluster_cols, cluster_frame, cluster_model, cluster_se, cluster_split, wmean
from mc.core import Check, close, scaled_close, set_partitions
from mc.honesty import check_honesty
from mc.refscores import Quantile, ref_linear
from mc.spy import CTL, clf, lin


# ------------------------------------------------------------------ drawn splittings
def cluster_data(n1, n2, layout, ways, labels):
    """rows for every cell of the cluster table, cell sizes following the layout"""
    rows = []
    for i in range(n1):
        for j in range(n2 if ways == 2 else 1):
            k = 1 if layout == "one" else (2 + (3 * i + 5 * j) % 3 if layout == "uneven" else 2)
            if layout == "holes" and (i + j) % 4 == 3:
                k = 0
            rows += [(i, j)] * k
    rows = np.array(rows)
    perm = np.argsort((np.arange(len(rows)) * 7) % len(rows), kind="stable") if labels != "sorted" else np.arange(len(rows))
    rows = rows[perm]
    if labels == "odd":
        return rows * 2.5 - 3.0
    if labels == "neg":
        return -rows.astype(float)
    return rows.astype(float)


def inv_split(rec, key, cv, smpls, smpls_cluster, n_folds, n_rep, what, drawn=True):
    """n_folds: folds per dimension of a drawn splitting, total number of folds of a given one"""
    n, ways = cv.shape
    total = n_folds ** ways if drawn else n_folds
    if len(smpls) != n_rep or len(smpls_cluster) != n_rep:
        rec.fail(f"{key}:reps", f"{what}: {len(smpls)} repetitions")
        return False
    for rep, repc in zip(smpls, smpls_cluster):
        if len(rep) != total or len(repc) != len(rep):
            rec.fail(f"{key}:folds", f"{what}: {len(rep)} folds instead of {total}")
            return False
        count = np.zeros(n, int)
        blocks = set()
        for (tr, te), (trc, tec) in zip(rep, repc):
            tr, te = np.asarray(tr), np.asarray(te)
            count[te] += 1
            if len(trc) != ways or len(tec) != ways:
                rec.fail(f"{key}:dims", f"{what}: cluster splitting has {len(tec)} dimensions")
                return False
            mt, me = np.ones(n, bool), np.ones(n, bool)
            for j in range(ways):
                a, b = np.asarray(trc[j]), np.asarray(tec[j])
                u = np.unique(cv[:, j])
                if sorted(list(a) + list(b)) != list(u):
                    rec.fail(f"{key}:cluster-partition", f"{what}: train {a} and test {b} clusters of dimension {j} are no partition of {u}")
                    return False
                if set(cv[tr, j]) & set(cv[te, j]):
                    rec.fail(f"{key}:shared", f"{what}: a fold trains on clusters {set(cv[tr, j]) & set(cv[te, j])} of dimension {j} it tests")
                    return False
                mt &= np.isin(cv[:, j], a)
                me &= np.isin(cv[:, j], b)
            if sorted(tr) != list(np.where(mt)[0]) or sorted(te) != list(np.where(me)[0]):
                rec.fail(f"{key}:describe", f"{what}: the cluster splitting does not describe the observation splitting")
                return False
            blocks.add(tuple(tuple(sorted(b)) for b in tec))
        if np.any(count != 1):
            rec.fail(f"{key}:partition", f"{what}: observations tested {sorted(set(count))} times")
            return False
        if drawn:
            per = [sorted({b[j] for b in blocks}) for j in range(ways)]
            if any(len(p) != n_folds for p in per) or len(blocks) != n_folds ** ways:
                rec.fail(f"{key}:product", f"{what}: the test blocks are not the product of {n_folds} groups per dimension")
                return False
            for j, p in enumerate(per):
                sz = [len(g) for g in p]
                if max(sz) - min(sz) > 1 or sum(sz) != len(np.unique(cv[:, j])):
                    rec.fail(f"{key}:sizes", f"{what}: cluster group sizes {sz} in dimension {j}")
                    return False
    return True


def draw_case(case, rec):
    import doubleml as dml
    import pandas as pd

    ways, lay = case["ways"], case["layout"]
    for n1, n2, labels in itertools.product(case["n1"], case["n2"] if ways == 2 else [1], ("sorted", "mixed", "odd", "neg")):
        cv = cluster_data(n1, n2, lay, ways, labels)[:, :ways]
        n = len(cv)
        rng = rng_for(case["seed"], "cl", n)
        df = pd.DataFrame({"y": rng.randn(n), "d": rng.randn(n), "X1": rng.randn(n)})
        cc = [f"c{j}" for j in range(ways)]
        for j, c in enumerate(cc):
            df[c] = cv[:, j]
        nmin = min(len(np.unique(cv[:, j])) for j in range(ways))
        for K, R, s in itertools.product(range(2, case["kmax"] + 1), (1, 2), case["seeds"]):
            what = f"{ways} ways, {n1}x{n2} {lay}/{labels}, {K} folds, {R} reps, seed {s}"
            data = dml.DoubleMLClusterData(df, "y", "d", cluster_cols=cc, x_cols=["X1"])
            np.random.seed(s)
            rec.state(case["ways"], lay, n1, n2, labels, K, R, s)
            rec.step()
            rec.trace()
            if K > nmin:
                try:
                    dml.DoubleMLPLR(data, lin("l"), lin("m"), n_folds=K, n_rep=R)
                    rec.fail("draw:too-many", f"{what}: more folds than clusters accepted")
                except ValueError:
                    rec.note("too-many-folds")
                continue
            m = dml.DoubleMLPLR(data, lin("l"), lin("m"), n_folds=K, n_rep=R)
            if m.n_folds != K ** ways or m.n_rep != R:
                rec.fail("draw:n_folds", f"{what}: n_folds {m.n_folds}, n_rep {m.n_rep}")
                return
            if not inv_split(rec, "draw", cv, m.smpls, m.smpls_cluster, K, R, what):
                return
            first = m.smpls
            if R == 2 and nmin >= 6 and repr([list(t[1]) for t in first[0]]) == repr([list(t[1]) for t in first[1]]) and s == case["seeds"][0]:
                rec.note("equal-repetitions")
            m.draw_sample_splitting()
            if not inv_split(rec, "redraw", cv, m.smpls, m.smpls_cluster, K, R, what):
                return
            np.random.seed(s)
            m2 = dml.DoubleMLPLR(data, lin("l"), lin("m"), n_folds=K, n_rep=R)
            same = all(np.array_equal(a[i], b[i]) for x, y in zip(first, m2.smpls) for a, b in zip(x, y) for i in (0, 1))
            rec.expect(same, "draw:reproducible", f"{what}: the same seed draws another splitting")
            rec.outcome(ways, n1, n2, lay, K, R)


# ------------------------------------------------------------------ estimates
def est_case(case, rec):
    reps = case["reps"]
    cfg = catalog(len(reps))[case["cfg"]]
    ways, lay = case["ways"], case["layout"]
    df = cluster_frame(cfg, case["seed"], ways=ways, layout=lay, per_cell=case["pc"], n2=case.get("n2", 4), blocks=case.get("blocks", 4))
    cc = cluster_cols(ways)
    if case.get("rev"):
        cc = cc[::-1]
    sp = [cluster_split(df, cc, [list(l) for l in labs]) for labs in reps]
    if any(len(te) == 0 or len(tr) == 0 for s in sp for tr, te in s[0]):
        rec.note("empty-block")
        return
    cv = df[cc].to_numpy(dtype=float)
    m = cluster_model(cfg, df, cc, sp)
    CTL.reset(idmap(df))
    m.fit()
    rec.state(case["cfg"], ways, lay, reps, case.get("n2", 4), case.get("rev", False))
    rec.step(len(reps))
    rec.trace()
    what = f"{cfg.name} {ways} ways {lay} {reps}"
    if not inv_split(rec, "est", cv, m.smpls, m.smpls_cluster, len(sp[0][0]), len(reps), what, drawn=False):
        return
    opts = cfg.options(df)
    if not check_honesty(rec, cfg, df, m, [s[0] for s in sp], key=f":cl{ways}", opts=opts):
        return
    fits = {e["fit_id"]: e for e in CTL.events if e["kind"] == "fit"}
    n = len(df)
    all_th, all_se = [], []
    for it, d in enumerate(cfg.treats):
        for ir, (sm, sc) in enumerate(sp):
            psi, dpsi = m.psi[:, ir, it], m.psi_deriv[:, ir, it]
            th, se = m.all_coef[it, ir], m.all_se[it, ir]
            want, scale = cluster_se(psi, dpsi, cv, sm, sc)
            if not close(se, want, rtol=1e-8, atol=1e-12):
                rec.fail(f"se:{cfg.name}", f"{what}: standard error {se}, cluster formula gives {want}")
                return
            P = {r: m.predictions[r][:, ir, it] for r in m.params_names}
            if cfg.linear:
                ref = ref_linear(cfg, df, d, P, opts, ir, sm, use_z_norm=False)
                ref = ref if ref is not None else None
                if ref is not None:
                    a, b = ref
                    t0 = -wmean(np.asarray(b, float), sm, sc) / wmean(np.asarray(a, float) * np.ones(n), sm, sc)
                    if not (close(th, t0, rtol=1e-7, atol=1e-9)):
                        rec.fail(f"coef:{cfg.name}", f"{what}: estimate {th}, cluster-weighted root {t0}")
                        return
                    if not scaled_close(psi, th * np.asarray(a) + b, rtol=1e-8) or not scaled_close(dpsi, a * np.ones(n), rtol=1e-8):
                        rec.fail(f"psi:{cfg.name}", f"{what}: reported score is not the score at the estimate")
                        return
                else:
                    rec.note("no-ref-score")
                sc_ = np.abs(psi).mean() + 1e-300
                if abs(wmean(psi, sm, sc)) > 1e-9 * (abs(wmean(np.abs(psi), sm, sc)) + 1e-300):
                    rec.fail(f"root:{cfg.name}", f"{what}: cluster-weighted mean score {wmean(psi, sm, sc)} at the estimate")
                    return
            else:
                Q = Quantile(cfg, df, P, opts)
                L = df["y"].max() - df["y"].min()
                eps = 1e-7 * L
                lo, hi = wmean(Q.score(th - eps), sm, sc), wmean(Q.score(th + eps), sm, sc)
                if not (np.sign(lo) != np.sign(hi) or abs(wmean(Q.score(th), sm, sc)) < 1e-10):
                    # the search window may not contain a root: then the estimate must minimise nothing smaller nearby
                    y = df["y"].to_numpy()
                    vals = np.sign([wmean(Q.score(g), sm, sc) for g in np.concatenate([y, [y.min() - 1]])])
                    rec.note("no-root-exists" if len(set(vals)) == 1 else "root-not-reached")
                else:
                    rec.note("root")
        vs = min(len(np.unique(cv[:, j])) for j in range(ways))
        med = np.median(m.all_coef[it])
        agg = np.sqrt(np.median(m.all_se[it] ** 2 + (m.all_coef[it] - med) ** 2 / vs))
        if not close(m.coef[it], med) or not close(m.se[it], agg, rtol=1e-8):
            rec.fail(f"aggregate:{cfg.name}", f"{what}: {m.coef[it]} {m.se[it]}, expected {med} {agg}")
            return
    fw = m.framework
    ok = np.allclose(fw.var_scaling_factors, min(len(np.unique(cv[:, j])) for j in range(ways))) and np.allclose(fw.all_ses, m.all_se)
    rec.expect(ok, f"framework:{cfg.name}", f"{what}: framework errors or scaling factors {fw.var_scaling_factors}")
    for ir, (sm, sc) in enumerate(sp):  # standardised scores reproduce the errors
        for it in range(len(cfg.treats)):
            s0, _ = cluster_se(fw.scaled_psi[:, it, ir], np.ones(n), cv, sm, sc)
            rec.expect(close(s0, m.all_se[it, ir], rtol=1e-7), f"scaled-psi:{cfg.name}", f"{what}: standardised scores give the error {s0} instead of {m.all_se[it, ir]}")
    rec.outcome(cfg.name, np.round(m.coef, 8).tolist(), np.round(m.se, 8).tolist())


def relabel_case(case, rec):
    """renaming the clusters, permuting cluster columns and shuffling the rows changes nothing"""
    cfg = catalog(1)[case["cfg"]]
    ways = case["ways"]
    df = cluster_frame(cfg, case["seed"], ways=ways, layout=case["layout"], per_cell=case["pc"])
    cc = cluster_cols(ways)
    labs = [[0, 1, 0, 1], [0, 0, 1, 1]][:ways]
    base = None
    u = [np.unique(df[c]) for c in cc]
    maps = list(itertools.permutations(range(4))) if case["deep"] else [(0, 1, 2, 3), (3, 1, 0, 2), (1, 0, 3, 2)]
    for pm in maps:
        for order in (["fwd", "rev"] if ways == 2 else ["fwd"]):
            for typ in ("float", "int", "big", "huge", "tiny", "text"):
                d2 = df.copy()
                new = {"float": lambda v: v - 2, "int": lambda v: v, "big": lambda v: v * 7, "huge": lambda v: 40_000_000 + v, "tiny": lambda v: v * 2.0 ** -40, "text": lambda v: f"firm {v}"}[typ]
                for j, c in enumerate(cc):
                    tgt = {u[j][i]: new(pm[i]) for i in range(len(u[j]))}
                    d2[c] = d2[c].map(tgt).astype({"float": float, "tiny": float, "text": object}.get(typ, int))
                cols = cc if order == "fwd" else cc[::-1]
                # labels follow the clusters, not their sorted position
                ll = []
                for c in cols:
                    j = cc.index(c)
                    newvals = np.unique(d2[c])
                    back = {new(pm[i]): labs[j][i] for i in range(len(u[j]))}
                    ll.append([back[v] for v in newvals])
                sp = [cluster_split(d2, cols, ll)]
                m = cluster_model(cfg, d2, cols, sp)
                CTL.reset(idmap(d2), log=False)
                m.fit()
                rec.state(cfg.name, ways, pm, order, typ)
                rec.step()
                rec.trace()
                got = (m.coef, m.se)
                if base is None:
                    base = got
                elif not (scaled_close(got[0], base[0], 1e-6) and scaled_close(got[1], base[1], 1e-6)):
                    rec.fail(f"relabel:{cfg.name}", f"{cfg.name} {ways} ways: relabelled clusters {pm}/{order}/{typ} change the result {base} -> {got}")
                    return


def singleton_case(case, rec):
    """one cluster per observation with equal fold sizes reproduces the ordinary estimate"""
    cfg = catalog(len(case["reps"]))[case["cfg"]]
    df = cfg.frame(case["seed"], blocks=4)
    df["c1"] = np.arange(len(df), dtype=float)[::-1] * 1.5
    sp = []
    for labs in case["reps"]:
        lab = np.array([labs[b] for b in df.block])[::-1]  # labels of the sorted clusters
        sp.append(cluster_split(df, ["c1"], [lab]))
    m = cluster_model(cfg, df, ["c1"], sp)
    CTL.reset(idmap(df), log=False)
    m.fit()
    o = cfg.build(df, n_rep=len(sp))
    o.set_sample_splitting([s[0] for s in sp])
    o.fit()
    rec.state("single", case["cfg"], case["reps"])
    rec.trace()
    rec.step()
    for k in ("coef", "se", "all_coef", "all_se", "psi", "psi_deriv"):
        rec.expect(scaled_close(getattr(m, k), getattr(o, k), 1e-7), f"singleton:{cfg.name}:{k}", f"{cfg.name} {case['reps']}: {k} {getattr(m, k).ravel()[:3]} vs {getattr(o, k).ravel()[:3]}")
    rec.expect(scaled_close(m.framework.scaled_psi, o.framework.scaled_psi, 1e-7), f"singleton:{cfg.name}:scaled_psi", f"{cfg.name}: standardised scores differ")


def refuse_case(case, rec):
    """composites and cluster-unaware operations refuse clustered data instead of ignoring the clusters"""
    import doubleml as dml

    df = make_df("lvl", 4, 4, case["seed"])
    df["c1"] = df.block.astype(float)
    for nm in ("APOS", "QTE"):
        data = dml.DoubleMLClusterData(df, "y", "d", cluster_cols="c1", x_cols=["X1", "X2"])
        rec.state("refuse", nm)
        rec.trace()
        rec.step()
        try:
            if nm == "APOS":
                m = dml.DoubleMLAPOS(data, lin("g"), clf("m"), treatment_levels=[0, 1], n_folds=2)
            else:
                m = dml.DoubleMLQTE(data, clf("g"), clf("m"), quantiles=[0.5], n_folds=2)
            m.fit()
        except (NotImplementedError, TypeError, ValueError):
            continue
        rec.note(f"accepted-{nm}")
        cvs = data.cluster_vars[:, 0]
        for rep in m.smpls:
            for tr, te in rep:
                if set(cvs[tr]) & set(cvs[te]):
                    rec.fail(f"refuse:{nm}", f"{nm} accepts clustered data and splits clusters")
                    return


def case_fn(case, rec):
    {"draw": draw_case, "est": est_case, "relabel": relabel_case, "single": singleton_case, "refuse": refuse_case}[case["kind"]](case, rec)


FULL1 = ["PLR-po", "PLIV-po", "IRM-ate", "IIVM"]


def cases(tier, seed):
    thor = tier == "thorough"
    for ways, lay in itertools.product((1, 2), ("even", "uneven", "holes", "one")):
        if ways == 1 and lay == "holes":
            continue
        for n1 in ((2, 3, 4, 5, 6, 7, 9) if ways == 1 else (2, 3, 4, 5, 6)):
            yield dict(kind="draw", name="draw", ways=ways, layout=lay, n1=[n1], n2=[2, 3, 4, 5] if not thor else [2, 3, 4, 5, 6, 7],
                       kmax=5 if ways == 1 else 3 + thor, seeds=[seed, seed + 1] if not thor else list(range(seed, seed + 5)), seed=seed)
    for ways, n1, n2 in ((1, 31, 2), (2, 13, 4), (2, 5, 12)):
        yield dict(kind="draw", name="draw", ways=ways, layout="uneven", n1=[n1], n2=[n2], kmax=10 if ways == 1 else 4, seeds=[seed], seed=seed)
    cat = catalog()
    parts = [p for p in set_partitions(4, 2, 4)]
    sub = [(0, 1, 0, 1), (0, 0, 1, 1), (0, 1, 1, 1), (0, 1, 2, 1), (0, 1, 2, 3)]
    for nm, c in cat.items():
        pc = max(c.per_cell, 4)
        for lay in ("even", "uneven"):
            P1 = parts if nm in FULL1 or thor else sub
            for p in P1:
                if c.nested and len(set(p)) > 2 and not thor:
                    continue
                yield dict(kind="est", name=nm, cfg=nm, ways=1, layout=lay, reps=[[p]], pc=pc, seed=seed)
            yield dict(kind="est", name=nm, cfg=nm, ways=1, layout=lay, reps=[[(0, 1, 0, 1)], [(0, 1, 1, 0)]], pc=pc, seed=seed)
        for lay in LAYOUTS:
            P2 = list(itertools.product(parts, repeat=2)) if thor and nm in FULL1 else (
                list(itertools.product(sub[:4], repeat=2)) if nm in FULL1 or thor else [(sub[0], sub[1]), (sub[2], sub[0]), (sub[1], sub[3])])
            if c.nested and not thor:
                P2 = P2[:2]
            for a, b in P2:
                yield dict(kind="est", name=nm, cfg=nm, ways=2, layout=lay, reps=[[a, b]], pc=max(c.per_cell, 48 if c.nested else 8), seed=seed)
            yield dict(kind="est", name=nm, cfg=nm, ways=2, layout=lay, reps=[[(0, 1, 0, 1), (0, 0, 1, 1)], [(0, 1, 1, 0), (0, 1, 0, 1)], [(0, 1, 1, 1), (0, 1, 1, 0)]],
                       pc=max(c.per_cell, 48 if c.nested else 8), seed=seed)
        if not c.nested:  # many clusters, folds and repetitions
            one = lambda B, k, R: [tuple(int(v) for v in np.random.RandomState(r).permutation([i % k for i in range(B)])) for r in range(R)]
            yield dict(kind="est", name=nm, cfg=nm, ways=1, layout="uneven", reps=[[l] for l in one(12, 5, 4)], blocks=12, pc=pc, seed=seed)
            yield dict(kind="est", name=nm, cfg=nm, ways=1, layout="even", reps=[[l] for l in one(10, 10, 1)], blocks=10, pc=pc, seed=seed)
            if thor or nm in FULL1 + ["PLR-2d", "APO-1", "DID-obs", "IRM-atte"]:
                yield dict(kind="est", name=nm, cfg=nm, ways=2, layout="uneven", reps=[list(l) for l in zip(one(7, 3, 4), one(5, 2, 4))], blocks=7, n2=5, pc=max(c.per_cell, 20), seed=seed)
        for n2 in (2, 3, 6) if not thor else (2, 3, 5, 6, 8):  # the two dimensions have different numbers of clusters, in both orders
            if c.nested and (n2 != 3 or not thor):
                continue
            for rev in (False, True):
                one, two = (0, 1, 1, 0), tuple(i % 2 for i in range(n2))
                lab = [(one, two), ((0, 1, 2, 1), two)]
                if n2 > 2 and (thor or nm in FULL1):
                    lab.append((one, tuple(0 if i == 1 else 1 for i in range(n2))))
                for a, b in lab:
                    yield dict(kind="est", name=nm, cfg=nm, ways=2, layout="even" if n2 % 2 == 0 else "uneven", reps=[[b, a] if rev else [a, b]], n2=n2, rev=rev, pc=max(c.per_cell, 4 * n2), seed=seed)
        for reps in ([(0, 1, 0, 1)], [(0, 1, 0, 1), (0, 0, 1, 1)], [(0, 1, 2, 3)], [(0, 1, 1, 0), (0, 1, 0, 1), (0, 0, 1, 1)]):
            if c.nested and len(set(reps[0])) > 2:
                continue
            yield dict(kind="single", name=nm, cfg=nm, reps=reps, seed=seed)
        if not c.nested:
            for ways in (1, 2):
                yield dict(kind="relabel", name=nm, cfg=nm, ways=ways, layout="uneven", pc=max(c.per_cell, 8), deep=thor, seed=seed)
    yield dict(kind="refuse", name="refuse", seed=seed)


if __name__ == "__main__":
    Check("C04", case_fn, cases, rule="all drawn cluster splittings over cluster counts x layouts x labelings x folds x repetitions x seeds; all assignments "
          "of four clusters per dimension to folds (full set for the main models, a cover for the others) x balanced, unbalanced and incomplete "
          "tables, for all model configurations; relabelings; singleton clusters").main()
