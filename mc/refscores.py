"""Reference scores, written from the documented formulas: a function of observed data and stored predictions only."""
import numpy as np


def norm_ipw(m, ind):
    """propensities rescaled so that inverse weights average to one in each arm"""
    m1 = np.mean(ind / m)
    m0 = np.mean((1 - ind) / (1 - m))
    return ind * (m * m1) + (1 - ind) * (1 - (1 - m) * m0)


def col(df, c):
    return df[c].to_numpy(dtype=float)


def weights_of(opts, n, i_rep):
    w = opts.get("weights")
    if w is None:
        return np.ones(n), None
    if isinstance(w, dict):
        return np.asarray(w["weights"], float), np.asarray(w["weights_bar"], float)[:, i_rep]
    return np.asarray(w, float), None


def irm_weights(score, d, m_adj, opts, i_rep):
    n = len(d)
    w, wbar = weights_of(opts, n, i_rep)
    if score == "ATTE":
        sub = w * d
        pr = np.mean(sub)
        return sub / pr, m_adj * w / pr
    return w, (w if wbar is None else wbar)


def fold_means(v, smpls):
    out = np.full(len(v), np.nan)
    for tr, te in smpls:
        out[te] = np.mean(v[tr])
    return out


def ref_linear(cfg, df, d_col, P, opts, i_rep, smpls, use_z_norm=True):
    """(psi_a, psi_b) for models with a score linear in the parameter; None if the model is nonlinear"""
    fam = cfg.name.split("-")[0]
    y = col(df, "y")
    d = col(df, d_col)
    n = len(y)
    one = np.ones(n)
    score = opts.get("score")
    norm = opts.get("normalize_ipw", False)
    if fam == "PLR":
        l, m = P["ml_l"], P["ml_m"]
        v = d - m
        if callable(score):
            return score(y, d, l, m, P.get("ml_g"), smpls)
        if score == "IV-type":
            return -v * d, v * (y - P["ml_g"])
        return -v * v, v * (y - l)
    if fam == "PLIV":
        if cfg.name.endswith("-pZ"):
            r = P["ml_r"]
            return -r * d, r * y
        if cfg.name.endswith("-pXZ"):
            l, m, mt = P["ml_l"], P["ml_m"], P["ml_r"]
            return -(d - mt) * (m - mt), (m - mt) * (y - l)
        l, r = P["ml_l"], P["ml_r"]
        w, u = d - r, y - l
        if "ml_m" in P:
            z = col(df, "zc")
            m = P["ml_m"]
            if callable(score):
                return score(y, z, d, l, m, r, P.get("ml_g"), smpls)
            if score == "IV-type":
                return -(z - m) * d, (z - m) * (y - P["ml_g"])
            return -(z - m) * w, (z - m) * u
        V = np.column_stack([col(df, c) - P["ml_m_" + c] for c in ("zc", "zc2")])
        A = np.column_stack([one, V])
        rt = A @ np.linalg.lstsq(A, w, rcond=None)[0]
        return -w * rt, rt * u
    if fam == "IRM":
        g0, g1, m = P["ml_g0"], P["ml_g1"], P["ml_m"]
        ma = norm_ipw(m, d) if norm else m
        if callable(score):
            return score(y, d, g0, g1, ma, smpls)
        w, wbar = irm_weights(score, d, ma, opts, i_rep)
        return -w / np.mean(w), w * (g1 - g0) + wbar * (d * (y - g1) / ma - (1 - d) * (y - g0) / (1 - ma))
    if fam == "APO":
        t = (d == opts["treatment_level"]).astype(float)
        g1, m = P["ml_g_d_lvl1"], P["ml_m"]
        ma = norm_ipw(m, t) if norm else m
        w, wbar = weights_of(opts, n, i_rep)
        wbar = w if wbar is None else wbar
        return -w / np.mean(w), w * g1 + wbar * t * (y - g1) / ma
    if fam == "IIVM":
        z = col(df, "z")
        g0, g1, m, r0, r1 = (P[k] for k in ("ml_g0", "ml_g1", "ml_m", "ml_r0", "ml_r1"))
        ma = norm_ipw(m, z if use_z_norm else d) if norm else m
        if callable(score):
            return score(y, z, d, g0, g1, ma, r0, r1, smpls)
        b = g1 - g0 + z * (y - g1) / ma - (1 - z) * (y - g0) / (1 - ma)
        a = r1 - r0 + z * (d - r1) / ma - (1 - z) * (d - r0) / (1 - ma)
        return -a, b
    if fam == "SSM":
        s = col(df, "s")
        g0, g1, pi, m = (P[k] for k in ("ml_g_d0", "ml_g_d1", "ml_pi", "ml_m"))
        i1 = d * s * (y - g1) / (m * pi)
        i0 = (1 - d) * s * (y - g0) / ((1 - m) * pi)
        if norm:
            i1 = i1 * np.sum(d) / np.sum(d * s / (pi * m))
            i0 = i0 * np.sum(1 - d) / np.sum((1 - d) * s / (pi * (1 - m)))
        return -one, (i1 + g1) - (i0 + g0)
    if fam == "DID":
        g0 = P["ml_g0"]
        p = fold_means(d, smpls)
        isn = opts.get("in_sample_normalization", True)
        if score == "observational":
            m = P["ml_m"]
            odds = (1 - d) * m / (1 - m)
            if isn:
                a = d / np.mean(d)
                return -a, (a - odds / np.mean(odds)) * (y - g0)
            return -d / p, (d / p - odds / p) * (y - g0)
        g1 = P["ml_g1"]
        if isn:
            a, c = d / np.mean(d), (1 - d) / np.mean(1 - d)
            return -one, (a - 1) * g0 + (1 - a) * g1 + (a - c) * (y - g0)
        return -one, (d / p - 1) * g0 + (1 - d / p) * g1 + (d / p - (1 - d) / (1 - p)) * (y - g0)
    if fam == "DIDCS":
        t = col(df, "t")
        p, lam = fold_means(d, smpls), fold_means(t, smpls)
        isn = opts.get("in_sample_normalization", True)
        obs = score == "observational"
        g = {(a, b): P[f"ml_g_d{a}_t{b}"] for a in (0, 1) for b in (0, 1)}
        cell = {(a, b): (d if a else 1 - d) * (t if b else 1 - t) for a in (0, 1) for b in (0, 1)}
        if obs:
            m = P["ml_m"]
            odds = m / (1 - m)
            lead = d / np.mean(d) if isn else d / p
        else:
            odds = one
            lead = one
        psi_b = lead * ((g[1, 1] - g[1, 0]) - (g[0, 1] - g[0, 0]))
        for (a, b), c in cell.items():
            sign = 1.0 if a == b else -1.0
            raw = c * (odds if a == 0 else 1.0)
            if isn:
                w = raw / np.mean(raw)
            else:
                pp = (p if (a == 1 or obs) else 1 - p)
                ll = lam if b == 1 else 1 - lam
                w = raw / (pp * ll)
            psi_b = psi_b + sign * w * (y - g[a, b])
        return -lead, psi_b
    if fam == "CVaR":
        return None
    return None


def cvar_b(y, d, tr, q, g, ma, pq):
    t = np.maximum(pq, (y - q * pq) / (1 - q))
    return (d == tr) * (t - g) / ma + g


class Quantile:
    """PQ / LPQ: score as a function of theta and the weights of its density derivative"""

    def __init__(self, cfg, df, P, opts):
        fam = cfg.name.split("-")[0]
        y = col(df, "y")
        d = col(df, "d")
        tr, q = opts["treatment"], opts["quantile"]
        thr = opts.get("trimming_threshold", 1e-2)
        norm = opts.get("normalize_ipw", True)
        ind = (d == tr).astype(float)
        self.y, self.q = y, q
        if fam == "PQ":
            m = np.clip(P["ml_m"], thr, 1 - thr)
            ma = norm_ipw(m, d) if norm else m
            if tr == 0:
                ma = 1 - ma
            g = P["ml_g"]
            self.w = ind / ma
            self.const = g - ind * g / ma - q
        else:
            z = col(df, "z")
            m = np.clip(P["ml_m_z"], thr, 1 - thr)
            ma = norm_ipw(m, z) if norm else m
            m0, m1, g0, g1 = (P[k] for k in ("ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1"))
            comp = np.mean(m1 - m0 + z / ma * (d - m1) - (1 - z) / (1 - ma) * (d - m0))
            sgn = 2 * tr - 1
            h1, h0 = z / ma, (1 - z) / (1 - ma)
            self.w = sgn * (h1 - h0) * ind / comp
            self.const = sgn * ((g1 - g0) - h1 * g1 + h0 * g0) / comp - q
            self.comp = comp

    def score(self, th):
        return self.w * (self.y <= th) + self.const

    def mean(self, th):
        return float(np.mean(self.score(th)))

    def deriv(self, th):
        """weighted Gaussian kernel density at zero of y - theta, Silverman bandwidth"""
        u = self.y - th
        iqr = (np.percentile(u, 75) - np.percentile(u, 25)) / 1.349
        sd = np.std(u, ddof=1)
        A = min(sd, iqr) if iqr > 0 else sd
        bw = 0.9 * A * len(u) ** (-0.2)
        k = np.exp(-0.5 * (u / bw) ** 2) / np.sqrt(2 * np.pi)
        return float(np.sum(self.w * k) / np.sum(self.w) / bw)


def ref_sens(cfg, df, d_col, P, opts, i_rep, theta):
    """sensitivity elements: dict(sigma2, nu2, psi_sigma2, psi_nu2, rr2) or None"""
    fam = cfg.name.split("-")[0]
    y, d = col(df, "y"), col(df, d_col)
    n = len(y)
    score = opts.get("score")
    norm = opts.get("normalize_ipw", False)
    isn = opts.get("in_sample_normalization", True)
    if fam == "PLR":
        v = d - P["ml_m"]
        s = (y - P["ml_l"] - theta * v) ** 2 if score == "partialling out" else (y - P["ml_g"] - theta * d) ** 2
        nu2 = 1 / np.mean(v**2)
        return dict(sigma2=np.mean(s), nu2=nu2, psi_sigma2=s - np.mean(s), psi_nu2=nu2 - v**2 * nu2**2, rr=v * nu2)
    if fam == "IRM":
        g0, g1, m = P["ml_g0"], P["ml_g1"], P["ml_m"]
        ma = norm_ipw(m, d) if norm else m
        w, wb = irm_weights(score, d, ma, opts, i_rep)
        s = (y - d * g1 - (1 - d) * g0) ** 2
        ma_ = w * wb * (1 / ma + 1 / (1 - ma))
        rr = wb * (d / ma - (1 - d) / (1 - ma))
    elif fam == "APO":
        t = (d == opts["treatment_level"]).astype(float)
        g0, g1, m = P["ml_g_d_lvl0"], P["ml_g_d_lvl1"], P["ml_m"]
        ma = norm_ipw(m, t) if norm else m
        w, wb = weights_of(opts, n, i_rep)
        wb = w if wb is None else wb
        s = (y - t * g1 - (1 - t) * g0) ** 2
        ma_ = w * wb / ma
        rr = wb * t / ma
    elif fam == "DID":
        g0, g1 = P["ml_g0"], P["ml_g1"]
        s = (y - d * g1 - (1 - d) * g0) ** 2
        p = np.mean(d)
        if score == "observational":
            m = P["ml_m"]
            odds = m / (1 - m)
            if isn:
                wt = (1 - d) * odds
                ma_ = d / p * (1 / p + odds / np.mean(wt))
                rr = d / p - wt / np.mean(wt)
            else:
                ma_ = d / p**2 * (1 / (1 - m))
                rr = d / p - (1 - d) * odds / p
        else:
            ma_ = np.full(n, 1 / p + 1 / (1 - p))
            rr = d / p - (1 - d) / (1 - p)
    elif fam == "DIDCS":
        t = col(df, "t")
        p, lam = np.mean(d), np.mean(t)
        g = {(a, b): P[f"ml_g_d{a}_t{b}"] for a in (0, 1) for b in (0, 1)}
        cell = {(a, b): (d if a else 1 - d) * (t if b else 1 - t) for a in (0, 1) for b in (0, 1)}
        s = (y - sum(cell[k] * g[k] for k in cell)) ** 2
        if score == "observational":
            m = P["ml_m"]
            odds = m / (1 - m)
            if isn:
                mw1, mw0 = np.mean(cell[0, 1] * odds), np.mean(cell[0, 0] * odds)
                ma_ = d / p * (1 / np.mean(cell[1, 1]) + 1 / np.mean(cell[1, 0]) + odds / mw1 + odds / mw0)
                rr = (cell[1, 1] / np.mean(cell[1, 1]) - cell[1, 0] / np.mean(cell[1, 0]) - cell[0, 1] * odds / mw1
                      + cell[0, 0] * odds / mw0)
            else:
                ma_ = d / p**2 * (1 / lam + 1 / (1 - lam)) * (1 + odds)
                rr = (t / (p * lam) - (1 - t) / (p * (1 - lam))) * (d - (1 - d) * odds)
        else:
            q = {k: (np.mean(cell[k]) if isn else (p if k[0] else 1 - p) * (lam if k[1] else 1 - lam)) for k in cell}
            ma_ = np.full(n, sum(1 / q[k] for k in cell))
            rr = sum((1 if k[0] == k[1] else -1) * cell[k] / q[k] for k in cell)
    else:
        return None
    e = 2 * ma_ - rr**2
    return dict(sigma2=np.mean(s), nu2=np.mean(e), psi_sigma2=s - np.mean(s), psi_nu2=e - np.mean(e), rr=rr)
