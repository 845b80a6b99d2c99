"""C03 user-supplied splits: exhaustive enumeration of candidate splittings of a small sample (all train/test subset combinations,
all container forms, single-defect index and type variants, cluster splittings), each judged by a reference definition of validity;
the real set_sample_splitting must accept exactly the valid ones, use them verbatim, and leave the model untouched otherwise."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import pandas as pd

from mc.catalog import catalog, rng_for, smpls_from_labels
from mc.core import Check, canon
from mc.spy import CTL, clf, lin

N = 3


# ---------------------------------------------------------------- reference
class Unspecified(Exception):
    pass


def idx(a, n):
    """index container -> sorted tuple of ints, or None when not unique in-range integers"""
    if isinstance(a, (str, bytes, dict)) or a is None:
        return None
    if isinstance(a, (int, float)):
        return None
    arr = np.asarray(a)
    if arr.ndim != 1:
        return None
    if arr.size == 0:
        raise Unspecified("empty part")
    if not issubclass(arr.dtype.type, np.integer):
        return None
    v = tuple(sorted(int(x) for x in arr))
    if len(set(v)) != len(v) or v[0] < 0 or v[-1] >= n:
        return None
    return v


def ref(s, n):
    """canonical accepted splitting (list of reps of (train, test)) or None"""
    full = tuple(range(n))
    if isinstance(s, tuple):
        if len(s) != 2:
            return None
        a, b = idx(s[0], n), idx(s[1], n)
        return [[(a, b)]] if a == full and b == full else None
    if not isinstance(s, list):
        return None
    if len(s) == 0:
        return None
    if all(isinstance(t, tuple) for t in s):
        if not all(len(t) == 2 for t in s):
            return None
        rep = [(idx(a, n), idx(b, n)) for a, b in s]
        if any(a is None or b is None for a, b in rep):
            return None
        if sorted(itertools.chain(*[b for _, b in rep])) != list(full):
            return None
        if len(rep) == 1 and rep[0][0] == full:
            return [rep]
        return [rep] if all(not set(a) & set(b) for a, b in rep) else None
    if not all(isinstance(t, list) for t in s):
        return None
    reps = []
    for r in s:
        if len(r) == 0:
            return None
        if not all(isinstance(t, tuple) and len(t) == 2 for t in r):
            return None
        rep = [(idx(a, n), idx(b, n)) for a, b in r]
        if any(a is None or b is None for a, b in rep):
            return None
        if sorted(itertools.chain(*[b for _, b in rep])) != list(full):
            return None
        reps.append(rep)
    if len({len(r) for r in reps}) != 1:
        return None
    if all(len(rep) == 1 and rep[0][0] == full for rep in reps):
        return reps
    if not all(not set(a) & set(b) for rep in reps for a, b in rep):
        return None
    return reps


# ---------------------------------------------------------------- models
def plr(n, seed, fit=True):
    import doubleml as dml

    r = rng_for(seed, "c03", n)
    df = pd.DataFrame({"y": r.randn(n), "d": r.randn(n), "X1": np.arange(n) * 0.3})
    m = dml.DoubleMLPLR(dml.DoubleMLData(df, "y", "d"), lin("l"), lin("m"), n_folds=n, n_rep=1)
    if fit:
        m.set_ml_nuisance_params("ml_l", "d", {"lam": 0.7})
        m.fit(store_models=True)
        m.bootstrap(n_rep_boot=3)
    return m


SKIP = ("_dml_data", "_learner")


def snap(m):
    d = {}
    for k, v in m.__dict__.items():
        if k in SKIP:
            continue
        if k == "_framework":
            d[k] = id(v)
        elif k.startswith("_modellist"):
            d[k] = [snap(x) for x in v]
        else:
            d[k] = canon(v) if k != "_models" else id(v)
    return canon(d)


def attempt(rec, m, s, n, what, cluster=None, want_cluster=None, ref_fn=None, name=""):
    """one candidate on a model; the model is restored if it was accepted"""
    try:
        want = ref(s, n) if ref_fn is None else ref_fn()
    except Unspecified:
        rec.note("unspecified")
        return
    saved = dict(m.__dict__)
    before = snap(m)
    CTL.reset(log=False)
    rec.step()
    rec.state(name, repr(what))
    try:
        if cluster is None:
            m.set_sample_splitting(s)
        else:
            m.set_sample_splitting(s, cluster)
        acc = True
    except Exception as e:
        acc = False
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
    rec.trace()
    rec.outcome(name, acc, canon(want))
    if want is None:
        rec.note("invalid")
        if acc:
            rec.fail(f"accepted-invalid{name}", f"invalid splitting accepted: {what}")
            m.__dict__.clear()
            m.__dict__.update(saved)
            return
        rec.expect(snap(m) == before and set(m.__dict__) == set(saved), f"rejected-changed{name}", f"rejected splitting changed the model: {what}")
        m.__dict__.clear()
        m.__dict__.update(saved)
        return
    rec.note("valid")
    if not acc:
        rec.fail(f"rejected-valid{name}", f"valid splitting rejected: {what}")
        m.__dict__.clear()
        m.__dict__.update(saved)
        return
    follow(rec, m, want, n, what, name)
    if want_cluster is not None:
        rec.expect(canon([[[list(map(list, a)), list(map(list, b))] for a, b in rep] for rep in m.smpls_cluster]) == canon(want_cluster),
                   f"cluster-verbatim{name}", f"{what}")
    rec.expect(CTL.n_calls == 0, f"learner-call{name}", "a learner was called")
    m.__dict__.clear()
    m.__dict__.update(saved)


def follow(rec, m, want, n, what, name):
    got = [[(tuple(map(int, np.sort(a))), tuple(map(int, np.sort(b)))) for a, b in rep] for rep in m.smpls]
    rec.expect(got == want, f"verbatim{name}", f"accepted {what} but the model uses {got}")
    rec.expect(m.n_rep == len(want) and m.n_folds == len(want[0]), f"counts{name}", f"n_rep={m.n_rep} n_folds={m.n_folds} for {what}")
    subs = getattr(m, "_modellist", None) or (list(getattr(m, "_modellist_0", [])) + list(getattr(m, "_modellist_1", [])))
    for x in subs:
        follow(rec, x, want, n, what, name + ":sub")
    if subs:
        rec.expect(m.framework is None and m.coef is None, f"stale{name}", "results of the previous splitting are still reported")
        return
    nt = m._dml_data.n_treat
    rec.expect(m.psi.shape == (n, len(want), nt) and m.all_coef.shape == (nt, len(want)) and m.all_se.shape == (nt, len(want))
               and all(v.shape == (n, len(want), nt) for v in m.psi_elements.values()), f"containers{name}", f"shapes do not follow {what}")
    stale = [k for k in ("framework", "predictions", "nuisance_targets", "models", "nuisance_loss") if getattr(m, k) is not None]
    rec.expect(not stale and np.isnan(m.coef).all() and np.isnan(m.all_coef).all() and m.boot_t_stat is None, f"stale{name}",
               f"results of the previous splitting are still reported: {stale}")
    for l in m.params_names:
        for d in m.params[l]:
            p = m.params[l][d]
            rec.expect(len(p) == len(want) and all(x is None or len(x) == len(want[0]) for x in p), f"params{name}",
                       "parameter containers do not match the new splitting")
    m.set_ml_nuisance_params(m.params_names[0], m._dml_data.d_cols[0], [[{"lam": 0.5}] * len(want[0])] * len(want))


SUBS = [list(c) for k in range(N + 1) for c in itertools.combinations(range(N), k)]
DEF = [[0, 0, 1], [0, 1, 2, 2], [3], [0, 1, 3], [-1], [0, 1, -1], [0.0, 1.0, 2.0], [True, False, True], "012", [2, 0, 1], None, 1, [[0, 1, 2]],
       ["0", "1"], [0, None]]


def types(v):
    yield "list", list(v)
    yield "tuple", tuple(v)
    for t in (np.int64, np.int32, np.uint8, np.int8):
        yield t.__name__, np.array(v, dtype=t)
    yield "index", pd.Index(v, dtype="int64")
    yield "series", pd.Series(v, index=[x + 7 for x in v], dtype="int64")
    yield "float", np.array(v, dtype=float)
    yield "bool", np.array([True] * len(v))


def case_fn(case, rec):
    k = case["kind"]
    if k == "tuple":
        m = plr(N, case["seed"])
        pool = SUBS + DEF
        for a in pool:
            for b in pool:
                attempt(rec, m, (a, b), N, (a, b))
        for s in [(), (SUBS[-1],), (SUBS[-1],) * 3, ([0, 1, 2], [0, 1, 2], None)]:
            attempt(rec, m, s, N, s)
        for _, a in types([0, 1, 2]):
            for _, b in types([2, 1, 0]):
                attempt(rec, m, (a, b), N, (type(a), type(b)))
    elif k == "flat1":
        m = plr(N, case["seed"])
        pool = SUBS + DEF
        for a in pool:
            for b in pool:
                attempt(rec, m, [(a, b)], N, [(a, b)])
        for _, a in types([0, 1, 2]):
            for _, b in types([2, 1, 0]):
                attempt(rec, m, [(a, b)], N, (type(a), type(b)))
    elif k == "flat2":
        m = plr(N, case["seed"])
        a = SUBS[case["a"]]
        for b, c, d in itertools.product(SUBS, repeat=3):
            attempt(rec, m, [(a, b), (c, d)], N, [(a, b), (c, d)])
    elif k == "flat2def":
        m = plr(N, case["seed"])
        base = [[[1, 2], [0]], [[0], [1, 2]]]
        for i, j in itertools.product(range(2), range(2)):
            for v in DEF + [x for _, x in types(base[i][j])] + [x for _, x in types(base[i][j][::-1])]:
                s = [[x for x in f] for f in base]
                s[i][j] = v
                attempt(rec, m, [tuple(f) for f in s], N, (i, j, repr(v)))
        for i, j, p, q in [(0, 0, 1, 1), (0, 1, 1, 0), (0, 1, 1, 1)]:
            for v in DEF:
                for w in DEF:
                    s = [[x for x in f] for f in base]
                    s[i][j] = v
                    s[p][q] = w
                    attempt(rec, m, [tuple(f) for f in s], N, (i, j, p, q, repr(v), repr(w)))
        full = [0, 1, 2]
        for s in [None, {}, "x", 3, np.array([[0, 1], [2, 0]]), [], [[]], [[], []], [([1, 2], [0]), [[0], [1, 2]]], [[([1, 2], [0]), ([0], [1, 2])], ([0], [1])],
                  [[[1, 2], [0]], [[0], [1, 2]]], [([1, 2], [0], [1]), ([0], [1, 2], [0])], [([1, 2],), ([0],)], [full, full],
                  [[([1, 2], [0]), ([0], [1, 2])], None], [[([1, 2], [0], [0]), ([0], [1, 2])]], {0: ([1, 2], [0])}]:
            attempt(rec, m, s, N, s)
    elif k == "flat3":
        m = plr(N, case["seed"])
        for tests in itertools.product(SUBS[1:], repeat=3):
            for mode in itertools.product(range(4), repeat=3):
                if len(set(mode)) > 2 and mode != (0, 1, 2):
                    continue
                s = []
                for t, md in zip(tests, mode):
                    comp = [i for i in range(N) if i not in t]
                    tr = {0: comp, 1: comp + [t[0]], 2: comp[:1], 3: list(range(N))}[md]
                    s.append((tr, list(t)))
                attempt(rec, m, s, N, s)
    elif k == "nested":
        m = plr(N, case["seed"])
        pool = [
            [([1, 2], [0]), ([0], [1, 2])], [([0, 2], [1]), ([1], [0, 2])], [([1, 2], [0]), ([0, 2], [1]), ([0, 1], [2])],
            [([1, 2], [0]), ([0], [1])], [([1, 2], [0]), ([0], [1, 2]), ([0, 1], [2])], [([0, 1, 2], [0]), ([0], [1, 2])],
            [([2], [0]), ([0], [1, 2])], [([1, 2], [0]), ([1], [0, 2])], [([1, 2], [0]), ([0], [1, 2, 2])], [([1, 2], [0]), ([0], [1, 3])],
            [([1, 2], [0]), ([0], [1, -1])], [([0, 1, 2], [0, 1, 2])], [([1.0, 2.0], [0]), ([0], [1, 2])], [([1, 1], [0]), ([0], [1, 2])],
            [([1, 2], [0])], [], [([2, 1], [0]), ([0], [2, 1])], [[[1, 2], [0]], [[0], [1, 2]]], [([1, 2], [0], [0]), ([0], [1, 2])],
        ]
        for a in pool:
            attempt(rec, m, [a], N, [a])
            for b in pool:
                attempt(rec, m, [a, b], N, [a, b])
                if case["triples"]:
                    for c in pool[: case["triples"]]:
                        attempt(rec, m, [a, b, c], N, [a, b, c])
    elif k == "model":
        model_case(case, rec)
    elif k == "cluster":
        cluster_case(case, rec)


def model_case(case, rec):
    """the same decision for every model class, on block-level splittings of its data"""
    import doubleml as dml

    nm = case["cfg"]
    cat = catalog()
    base = cat[{"APOS": "APO-1", "QTE-PQ": "PQ-1", "QTE-LPQ": "LPQ-1", "QTE-CVaR": "CVaR-1"}.get(nm, nm)]
    df = base.frame(case["seed"], blocks=3)
    n = len(df)
    if nm == "APOS":
        m = dml.DoubleMLAPOS(base.data(df), lin("ml_g"), clf("ml_m"), treatment_levels=[2, 0], n_folds=3)
    elif nm.startswith("QTE"):
        sc = nm.split("-")[1]
        m = dml.DoubleMLQTE(base.data(df), lin("g") if sc == "CVaR" else clf("g"), clf("m"), quantiles=[0.4, 0.6], score=sc, n_folds=3)
    else:
        m = base.build(df, n_folds=3, draw=True)
    m.set_sample_splitting(smpls_from_labels(df.block, (0, 1, 2)))
    m.fit()
    B = [np.where(df.block == b)[0].tolist() for b in range(3)]
    ex = lambda bs: sorted(itertools.chain(*[B[b] for b in bs]))
    subs = [c for k in (1, 2, 3) for c in itertools.combinations(range(3), k)]
    name = f":{nm}"
    for a, b, c, d in itertools.product(subs, repeat=4):
        if len(set(a) & set(b)) + len(set(c) & set(d)) > 1 or (len(set(b) | set(d)) < 3 and (a, c) != ((1, 2), (0,))):
            continue  # keep clean candidates and those with a single defect
        s = [(ex(a), ex(b)), (ex(c), ex(d))]
        attempt(rec, m, s, n, (a, b, c, d), name=name)
    al = list(range(n))
    for s in [(al, al), (al, al[:-1]), (al[:-1], al), [(al, al)], [(al, al[:-1])], [(al[:-1], al)], [(al[1:], [0]), ([0], al[1:])], None, "x",
              [(al[1:], [0]), ([0], al[2:])], [(al[1:], [0]), ([0], al[1:] + [n])], [(al[1:], [0]), ([0], al[1:-1] + [-1])]]:
        attempt(rec, m, s, n, repr(s)[:60] + str(len(repr(s))), name=name)
    f2 = smpls_from_labels(df.block, (0, 1, 1))
    g2 = smpls_from_labels(df.block, (0, 1, 0))
    f3 = smpls_from_labels(df.block, (0, 1, 2))
    bad = [(f2[0][0], f2[0][1]), (f2[1][0], f2[0][1])]
    for i, s in enumerate([[f2, g2], [f2, f3], [f3, f3, f3], [f2, bad], [bad, f2], [f2, g2, bad], [g2]]):
        attempt(rec, m, s, n, i, name=name)


def ladder_case(case, rec):
    """many folds and repetitions: the splitting itself is accepted, every single-position defect is rejected"""
    base = catalog()[case["cfg"]]
    df = base.frame(case["seed"], blocks=3)
    n = len(df)
    m = base.build(df, n_folds=3, draw=True)
    m.fit()
    al = np.arange(n)
    for K, R in ((5, 4), (n, 1), (7, 3)):
        reps = []
        for r in range(R):
            lab = np.random.RandomState(r).permutation(al % K)
            reps.append([(al[lab != k], al[lab == k]) for k in range(K)])
        name = f":ladder:{case['cfg']}"
        attempt(rec, m, reps, n, (K, R, "good"), name=name)
        for r, k in itertools.product(range(R), range(K)):
            tr, te = reps[r][k]
            alt = {"lost": (tr, te[:-1]), "leak": (np.sort(np.append(tr, te[0])), te), "twice": (tr, np.append(te, tr[0])), "beyond": (tr, np.append(te[:-1], n)),
                   "negative": (tr, np.append(te[:-1], -1)), "repeated": (tr, np.append(te, te[0])), "trainout": (np.append(tr, n + 3), te)}
            for a, v in alt.items():
                new = [list(x) for x in reps]
                new[r][k] = v
                attempt(rec, m, new, n, (K, R, r, k, a), name=name)
            new = [list(x) for x in reps]
            del new[r][k]
            attempt(rec, m, new, n, (K, R, r, k, "missing fold"), name=name)


def cluster_case(case, rec):
    import doubleml as dml

    two = case["dims"] == 2
    r = rng_for(case["seed"], "c03cl")
    c1 = np.repeat([0, 1, 2], 3) if two else np.array([5, 5, 7, 7, 9, 9])
    c2 = np.tile([10, 11, 12], 3)
    n = len(c1)
    df = pd.DataFrame({"y": r.randn(n), "d": r.randn(n), "X1": np.arange(n) * 0.2, "c1": c1, "c2": c2 if two else 0})
    dat = dml.DoubleMLClusterData(df, "y", "d", ["c1", "c2"] if two else ["c1"], x_cols=["X1"])
    m = dml.DoubleMLPLR(dat, lin("l"), lin("m"), n_folds=3, n_rep=2)
    m.fit()
    C = [np.unique(c1).tolist()] + ([np.unique(c2).tolist()] if two else [])

    def build(groups):
        """groups[dim] = list of test cluster groups"""
        smpls, cl = [], []
        for combo in itertools.product(*[range(len(g)) for g in groups]):
            te = np.ones(n, bool)
            tr = np.ones(n, bool)
            a, b = [], []
            for dim, k in enumerate(combo):
                v = c1 if dim == 0 else c2
                te &= np.isin(v, groups[dim][k])
                rest = [x for x in C[dim] if x not in groups[dim][k]]
                tr &= np.isin(v, rest)
                a.append(list(rest))
                b.append(list(groups[dim][k]))
            smpls.append((np.where(tr)[0], np.where(te)[0]))
            cl.append((a, b))
        return smpls, cl

    opts = []
    for lab in [(0, 1, 1), (0, 1, 0), (0, 0, 1)]:
        g = [[[C[d][i] for i in range(3) if lab[i] == k] for k in range(2)] for d in range(len(C))]
        opts.append(build(g))
    canonc = lambda cls: [[[list(map(list, a)), list(map(list, b))] for a, b in rep] for rep in cls]

    def okc(cls, nrep, nf):
        if not isinstance(cls, list) or len(cls) != nrep:
            return False
        for rep in cls:
            if len(rep) != nf:
                return False
            for a, b in rep:
                for d in range(len(C)):
                    if sorted(list(a[d]) + list(b[d])) != C[d]:
                        return False
        return True

    def run(smpls, cls, what):
        want = [[(tuple(map(int, a)), tuple(map(int, b))) for a, b in rep] for rep in smpls]
        ok = okc(cls, len(smpls), len(smpls[0]))
        attempt(rec, m, smpls, n, what, cluster=cls, want_cluster=canonc(cls) if ok else None, ref_fn=lambda: want if ok else None,
                name=f":cluster{case['dims']}")

    import copy

    reps = opts[: case["n_rep"]]
    smpls = [o[0] for o in reps]
    good = [o[1] for o in reps]
    run(smpls, good, "good")
    if case["n_rep"] == 1:  # flat form
        want = [[(tuple(map(int, a)), tuple(map(int, b))) for a, b in smpls[0]]]
        attempt(rec, m, smpls[0], n, "flat", cluster=good, want_cluster=canonc(good), ref_fn=lambda: want, name=f":cluster{case['dims']}")
    # no cluster splitting, wrong lengths
    attempt(rec, m, smpls, n, "none", ref_fn=lambda: None, name=f":cluster{case['dims']}")
    run(smpls, good[:-1], "short reps")
    run(smpls, good + good[:1], "long reps")
    run(smpls, [g[:-1] for g in good], "short folds")
    run(smpls, [g + g[:1] for g in good], "long folds")
    pools = [[list(x) for k in range(4) for x in itertools.combinations(C[d], k)] + [[C[d][0], C[d][0]], [99], C[d] + [99]] for d in range(len(C))]
    for ir in range(len(good)):
        for k in range(len(good[ir])):
            for d in range(len(C)):
                for a in pools[d]:
                    for b in pools[d]:
                        c = copy.deepcopy(good)
                        c[ir][k][0][d] = a
                        c[ir][k][1][d] = b
                        run(smpls, c, (ir, k, d, a, b))
    # observation splitting invalid although the cluster splitting is fine
    for ir in range(len(smpls)):
        s = [list(x) for x in smpls]
        s[ir] = [s[ir][0]] + [(s[ir][0][0], s[ir][0][1])] + s[ir][2:]
        attempt(rec, m, s, n, ("badobs", ir), cluster=good, ref_fn=lambda: None, name=f":cluster{case['dims']}")


def cases(tier, seed):
    thor = tier == "thorough"
    yield dict(kind="tuple", seed=seed)
    yield dict(kind="flat1", seed=seed)
    for a in range(len(SUBS)):
        yield dict(kind="flat2", a=a, seed=seed)
    yield dict(kind="flat2def", seed=seed)
    yield dict(kind="flat3", seed=seed)
    yield dict(kind="nested", triples=19 if thor else 9, seed=seed)
    for nm in ["PLR-po", "PLR-2d", "PLIV-po", "PLIV-pXZ", "PLIV-pZ", "IRM-ate", "APO-1", "IIVM", "PQ-1", "LPQ-1", "CVaR-1", "SSM-mar", "SSM-non", "DID-obs",
               "DID-exp", "DIDCS-obs", "APOS", "QTE-PQ", "QTE-LPQ", "QTE-CVaR"]:
        yield dict(kind="model", cfg=nm, name=nm, seed=seed)
    for nm in ("PLR-po", "IRM-ate", "PLIV-pXZ", "CVaR-1", "DIDCS-obs"):
        yield dict(kind="ladder", cfg=nm, name=nm, seed=seed)
    for dims in (1, 2):
        for nr in (1, 2, 3):
            yield dict(kind="cluster", dims=dims, n_rep=nr, seed=seed)


if __name__ == "__main__":
    Check("C03", case_fn, cases, rule="sample of 3: every tuple, every one-fold and two-fold list over all subsets (4096) and 15 malformed "
          "index containers, every three-fold test assignment x train modes, all pairs/triples of 19 repetition candidates; all model "
          "classes on block-level candidates with at most one defect; cluster splittings with every single-position replacement",
          assumptions=["empty parts are left unspecified"]).main()
