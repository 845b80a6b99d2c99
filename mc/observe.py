"""Everything a model, a composite or a framework reports publicly, as a nested structure of copies."""
import numpy as np
import pandas as pd

from mc.core import close

FW = ["n_thetas", "n_rep", "n_obs", "thetas", "all_thetas", "ses", "all_ses", "t_stats", "pvals", "all_t_stats", "all_pvals",
      "scaled_psi", "var_scaling_factors", "n_rep_boot", "boot_method", "boot_t_stat", "sensitivity_elements",
      "sensitivity_params", "treatment_names", "summary", "sensitivity_summary"]
DML = ["n_folds", "n_rep", "n_rep_boot", "boot_method", "score", "params", "params_names", "learner_names", "predictions",
       "nuisance_targets", "nuisance_loss", "models", "smpls", "smpls_cluster", "psi", "psi_deriv", "psi_elements",
       "sensitivity_elements", "sensitivity_params", "coef", "se", "t_stat", "pval", "boot_t_stat", "all_coef", "all_se", "summary"]
COMP = ["n_folds", "n_rep", "n_rep_boot", "boot_method", "smpls", "coef", "se", "all_coef", "all_se", "t_stat", "pval", "boot_t_stat",
        "sensitivity_elements", "sensitivity_params", "summary", "quantiles", "treatment_levels", "weights"]


def snap(o):
    """deep copy into plain structures"""
    if isinstance(o, np.ndarray):
        return o.copy() if o.dtype != object else [snap(v) for v in o.tolist()]
    if isinstance(o, pd.DataFrame):
        return {"__cols": list(map(str, o.columns)), "__idx": list(map(str, o.index)),
                "__val": {str(i): snap(o.iloc[:, i].to_numpy().copy()) for i in range(o.shape[1])}}
    if isinstance(o, dict):
        return {str(k): snap(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [snap(v) for v in o]
    if isinstance(o, (str, int, float, bool, np.generic)) or o is None:
        return o
    if hasattr(o, "get_params") and hasattr(o, "fit"):
        st = {k: snap(v) for k, v in sorted(vars(o).items()) if k != "fit_id_"}
        st["__class"] = type(o).__name__
        return st
    if callable(o):
        return getattr(o, "__name__", "callable")
    return repr(type(o))


def grab(obj, names):
    out = {}
    for n in names:
        if not hasattr(type(obj), n):
            continue
        try:
            out[n] = snap(getattr(obj, n))
        except Exception as e:
            out[n] = ["raises", type(e).__name__]
    return out


def framework(fw):
    return None if fw is None else grab(fw, FW)


def model(m):
    out = grab(m, DML)
    out["framework"] = framework(m.framework)
    out["data"] = data(m._dml_data)
    return out


def data(d):
    # with several treatments x and d belong to the treatment a model worked on last
    cur = [] if len(d.d_cols) > 1 else ["x", "d"]
    return grab(d, cur + ["y_col", "d_cols", "x_cols", "z_cols", "t_col", "s_col", "cluster_cols", "y", "z", "t", "s", "cluster_vars"])


def composite(m):
    out = grab(m, COMP)
    out["framework"] = framework(m.framework)
    for n in ("modellist", "modellist_0", "modellist_1"):
        if hasattr(m, n):
            out[n] = [model(s) if s is not None else None for s in getattr(m, n)]
    return out


def diff(a, b, path="", rtol=1e-9, atol=1e-11):
    """path of the first difference between two snapshots (None when equal)"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return path
        if a.dtype == b.dtype and a.tobytes() == b.tobytes():
            return None
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
            sc = np.abs(np.asarray(b, dtype=float)[np.isfinite(np.asarray(b, dtype=float))])
            at = max(atol, rtol * (sc.max() if sc.size else 0))
            return None if close(a, b, rtol=rtol, atol=at) else path
        return None if np.array_equal(a, b) else path
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}.keys{sorted(set(a) ^ set(b))}"
        for k in a:
            r = diff(a[k], b[k], f"{path}.{k}", rtol, atol)
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}.len"
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{i}]", rtol, atol)
            if r:
                return r
        return None
    num = (int, float, np.integer, np.floating)
    if isinstance(a, num) and isinstance(b, num):
        return None if close(float(a), float(b), rtol=rtol, atol=atol) else path
    return None if type(a) is type(b) and a == b else path


def at(o, path):
    """short value at a path, for messages"""
    return path
