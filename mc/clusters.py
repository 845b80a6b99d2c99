"""Clustered data: layouts, splittings and the reference of the multiway cluster-robust formulas."""
import numpy as np

LAYOUTS = ("even", "uneven", "holes")


def cluster_frame(cfg, seed, blocks=4, ways=1, layout="even", n2=4, per_cell=None):
    """frame with cluster columns c1 (the block) and c2 (crossing the blocks); uneven layouts drop rows"""
    df = cfg.frame(seed, blocks=blocks, per_cell=per_cell)
    within = np.zeros(len(df), dtype=int)
    for b in np.unique(df.block):
        ix = np.where(df.block == b)[0]
        within[ix] = np.arange(len(ix))
    per = int(within.max()) + 1
    df["c1"] = df.block.astype(float) * 3.0 - 4.0
    # every block has every second cluster; within one cell all strata alternate
    df["c2"] = ((within * n2) // per).astype(float) if per >= 2 * n2 else (within % n2).astype(float)
    if layout == "uneven":
        drop = [i for i in range(len(df)) if (df.block.iloc[i] == 1 and within[i] % 7 in (1, 4)) or (df.block.iloc[i] == 2 and within[i] % 5 == 0)]
    elif layout == "holes":  # one cell of the two-way table is empty
        drop = [i for i in range(len(df)) if df.block.iloc[i] == 0 and df.c2.iloc[i] == 0]
    else:
        drop = []
    df = df.drop(index=drop).reset_index(drop=True)
    return df


def cluster_cols(ways):
    return ["c1", "c2"][:ways]


def cluster_split(df, ccols, labels):
    """one repetition: labels[i] assigns a fold to every cluster (in sorted order) of dimension i"""
    cv = [df[c].to_numpy() for c in ccols]
    vals = [np.unique(v) for v in cv]
    sm, sc = [], []
    folds = [[]]
    for lab in labels:
        folds = [f + [k] for f in folds for k in sorted(set(lab))]
    for fo in folds:
        te, tr = np.ones(len(df), bool), np.ones(len(df), bool)
        tec, trc = [], []
        for v, u, lab, k in zip(cv, vals, labels, fo):
            lab = np.asarray(lab)
            tec.append(u[lab == k])
            trc.append(u[lab != k])
            te &= np.isin(v, u[lab == k])
            tr &= np.isin(v, u[lab != k])
        sm.append((np.where(tr)[0], np.where(te)[0]))
        sc.append((trc, tec))
    return sm, sc


def cluster_model(cfg, df, ccols, splits, learners=None, **over):
    import doubleml as dml

    kw = dict(cfg.data_kw)
    data = dml.DoubleMLClusterData(df, "y", list(cfg.treats), cluster_cols=list(ccols), x_cols=cfg.xcols(df), **kw)
    m = cfg.build(df, data=data, n_folds=2, n_rep=len(splits), learners=learners, **over)
    m.set_sample_splitting([s[0] for s in splits], [s[1] for s in splits])
    return m


def wmean(v, smpls, smpls_cluster):
    """cluster-fold-weighted average: every fold's sum over the number of cells of its test block, averaged over the folds"""
    tot = 0.0
    for (_, te), (_, cl) in zip(smpls, smpls_cluster):
        cells = 1
        for c in cl:
            cells *= len(c)
        tot += float(np.sum(v[np.asarray(te, dtype=int)])) / cells
    return tot / len(smpls)


def cluster_se(psi, deriv, cv, smpls, smpls_cluster):
    """multiway cluster-robust standard error: pairs of observations of the same test block sharing a cluster (a pair sharing both
    clusters counts once per dimension)"""
    gam = 0.0
    for (_, te), (_, cl) in zip(smpls, smpls_cluster):
        te = np.asarray(te, dtype=int)
        sizes = [len(c) for c in cl]
        const = 1.0 / sizes[0] if len(sizes) == 1 else min(sizes) / (sizes[0] * sizes[1]) ** 2
        p = psi[te]
        for j in range(cv.shape[1]):
            same = cv[te, j][:, None] == cv[te, j][None, :]
            gam += const * float((np.outer(p, p) * same).sum())
    gam /= len(smpls)
    J = wmean(deriv, smpls, smpls_cluster)
    scale = min(len(np.unique(cv[:, j])) for j in range(cv.shape[1]))
    return np.sqrt(gam / J ** 2 / scale), scale
