"""Reference semantics of cross-fitting: which learner call may produce which stored prediction."""
import numpy as np

from mc.core import close
from mc.spy import CTL


def _cols_match(X, want):
    """X has exactly the wanted columns, in any order"""
    if X.shape[1] != len(want):
        return False
    used = set()
    for w in want:
        hit = None
        for j in range(X.shape[1]):
            if j not in used and np.allclose(X[:, j], w, rtol=1e-10, atol=1e-12):
                hit = j
                break
        if hit is None:
            return False
        used.add(hit)
    return True


def _cols_contain(X, want, extra):
    if X.shape[1] != len(want) + extra:
        return False
    return all(any(np.allclose(X[:, j], w, rtol=1e-10, atol=1e-12) for j in range(X.shape[1])) for w in want)


def est_target_ok(cfg, role, df, d_col, rows, t, preds, opts):
    """targets that are themselves estimated: check their defining form (None if no reference)"""
    y = df["y"].to_numpy(dtype=float)[rows]
    d = df[d_col].to_numpy(dtype=float)[rows]
    yy = df["y"].to_numpy(dtype=float)
    dd = df[d_col].to_numpy(dtype=float)
    if cfg.name.startswith("PLR") and role == "ml_g":
        v = dd - preds["ml_m"]
        th = np.mean(v * (yy - preds["ml_l"])) / np.mean(v * v)
        return close(t, y - th * d, rtol=1e-6, atol=1e-8)
    if cfg.name.startswith("PLIV") and role == "ml_g":
        z = df["zc"].to_numpy(dtype=float)
        th = np.mean((z - preds["ml_m"]) * (yy - preds["ml_l"])) / np.mean((z - preds["ml_m"]) * (dd - preds["ml_r"]))
        return close(t, y - th * d, rtol=1e-6, atol=1e-8)
    if cfg.name.startswith("PQ"):
        one, zero = y[t == 1], y[t == 0]
        return bool(np.isin(t, (0, 1)).all() and (len(one) == 0 or len(zero) == 0 or one.max() < zero.min()))
    if cfg.name.startswith("LPQ"):
        a = df["d"].to_numpy()[rows] == opts["treatment"]
        if np.any(t[~a] != 0):
            return False
        one, zero = y[a & (t == 1)], y[a & (t == 0)]
        return bool(np.isin(t, (0, 1)).all() and (len(one) == 0 or len(zero) == 0 or one.max() < zero.min()))
    if cfg.name.startswith("CVaR"):
        q = opts["quantile"]
        c1 = t.min()
        cands = [c1] + [(y[i] - t[i] * (1 - q)) / q for i in range(len(y))]
        return any(close(t, np.maximum(c, (y - q * c) / (1 - q)), rtol=1e-6, atol=1e-7) for c in cands)
    return None


def check_honesty(rec, cfg, df, m, smpls, treats=None, use_other=True, skip=(), key="", opts=None, exact_lam=None):
    """every stored prediction was produced by a learner fitted on the right rows, targets and covariates.

    Uses the events logged since the last CTL.reset."""
    treats = list(treats) if treats is not None else cfg.treats
    opts = opts if opts is not None else cfg.options(df)
    fits = {e["fit_id"]: e for e in CTL.events if e["kind"] == "fit"}
    preds_by_fit = {}
    for e in CTL.events:
        if e["kind"] == "predict":
            preds_by_fit.setdefault(e["fit_id"], []).append(e)
    n = len(df)
    allowed = [set(map(int, tr)) for rep in smpls for tr, _ in rep]
    for e in fits.values():
        rec.step()
        if e["rows"] is None:
            rec.fail(f"unidentified-rows:{cfg.name}{key}", "a learner was fitted on covariates without the identifying column",
                     shape=e["X"].shape)
            return False
        rows = set(e["rows"])
        if len(rows) != len(e["rows"]):
            rec.fail(f"dup-rows:{cfg.name}{key}", "an observation appears twice in a training set", rows=e["rows"])
            return False
        if not any(rows <= a for a in allowed):
            rec.fail(f"outside-train:{cfg.name}{key}", f"learner {e['tag']} fitted on rows not inside one fold's training part",
                     rows=sorted(rows))
            return False
    # candidate index by row set
    by_rows = {}
    for f in fits.values():
        by_rows.setdefault(frozenset(f["rows"]), []).append(f)
    ok = True
    for it, d_col in enumerate(treats):
        for ir, rep in enumerate(smpls):
            slot = {r: m.predictions[r][:, ir, it] for r in m.params_names if r in m.predictions}
            for name, role in cfg.roles.items():
                if name in skip:
                    continue
                vals = slot[name]
                mask = role.mask(df) if role.mask is not None else np.ones(n, dtype=bool)
                xcols = cfg.x_for(df, name, d_col, treats=treats, use_other=use_other)
                Xfull = df[xcols].to_numpy(dtype=float)
                target = role.target(df, d_col) if role.target is not None else None
                extra = 1 if (cfg.name.startswith("SSM-non") and name != "ml_pi") else 0
                covered = np.zeros(n, dtype=int)
                for k, (tr, te) in enumerate(rep):
                    want = frozenset(int(i) for i in tr if mask[i])
                    te = np.asarray(te, dtype=int)
                    covered[te] += 1
                    if role.nested:
                        cands = [f for rs, fs in by_rows.items() if rs <= want and len(rs) > 0 for f in fs]
                    else:
                        cands = by_rows.get(want, [])
                    hit = False
                    why = f"no learner was fitted on exactly the rows {sorted(want)}" if not cands else ""
                    for f in cands:
                        rows = np.array(f["rows"])
                        wantX = [Xfull[rows, j] for j in range(Xfull.shape[1])]
                        if not (_cols_contain(f["X"], wantX, extra) if extra else _cols_match(f["X"], wantX)):
                            why = why or "covariates differ"
                            continue
                        if target is not None:
                            if not close(f["y"], target[rows], rtol=1e-9, atol=1e-10):
                                why = why or "target differs"
                                continue
                        else:
                            r_ok = est_target_ok(cfg, name, df, d_col, rows, f["y"], slot, opts)
                            if r_ok is False:
                                why = "estimated target has the wrong form"
                                continue
                        if exact_lam is not None:
                            lam = exact_lam(name, it, ir, k)
                            if lam is not None and abs(f["lam"] - lam) > 1e-12:
                                why = f"parameter {f['lam']} instead of {lam}"
                                continue
                        for e in preds_by_fit.get(f["fit_id"], []):
                            if e["rows"] is None:
                                continue
                            pos = {r: i for i, r in enumerate(e["rows"])}
                            if not all(int(i) in pos for i in te):
                                continue
                            idx = [pos[int(i)] for i in te]
                            out = e["out"][idx]
                            if role.clip:
                                thr = opts.get("trimming_threshold", 1e-2)
                                out = np.clip(out, thr, 1 - thr)
                            wX = [Xfull[te, j] for j in range(Xfull.shape[1])]
                            if not (_cols_contain(e["X"][idx], wX, extra) if extra else _cols_match(e["X"][idx], wX)):
                                why = why or "predicted at other covariates"
                                continue
                            if close(out, vals[te], rtol=1e-9, atol=1e-10):
                                hit = True
                                break
                            why = why or "stored predictions differ from the learner's output"
                        if hit:
                            break
                    rec.trace()
                    if not hit:
                        rec.fail(f"honesty:{cfg.name}:{name}{key}",
                                 f"prediction of {name} (treatment {d_col}, repetition {ir}, fold {k}) is not the output of a "
                                 f"learner fitted on the training part of this fold: {why}", test=te.tolist(), train=sorted(want))
                        ok = False
                if not (covered == 1).all():
                    rec.fail(f"coverage:{cfg.name}", "splitting does not test each observation once")
                    ok = False
    return ok
