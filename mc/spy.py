"""Deterministic spy learners.

A spy's predictions are a smooth deterministic function of (training rows, targets, parameters, x);
every fit and predict call is logged with the identity of the rows involved (rows are recognised by the
value of an identifier covariate).  A global controller can inject faults or non-finite predictions at
enumerated call indices.
"""
import threading

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin


class InjectedFault(RuntimeError):
    pass


class Control:
    def __init__(self):
        self.lock = threading.Lock()
        self.hook = None  # called at every learner call (controlled scheduling)
        self.reset()

    def reset(self, idmap=None, log=True):
        self.idmap = idmap or {}
        self.log_on = log
        self.events = []
        self.n_calls = 0
        self.fault_at = None  # set of call indices at which to raise
        self.nan_at = None  # set of predict call indices (in n_calls numbering) that return nan
        self.nan_value = np.nan
        self.nan_void = False  # the injected value was not visible (single-class training set)
        self.nan_last = False  # only the last prediction of the call is not finite
        self.tune = None  # fn(estimator, X_test, y_test) -> score, for tuning spies
        self.table = None  # fn(tag, fit_rows, pred_rows) -> values, for table learners
        self.armed = True
        self.serial = 0

    def call(self, kind):
        """count a learner call; returns its index"""
        if self.hook is not None:
            self.hook()
        with self.lock:
            idx = self.n_calls
            self.n_calls += 1
        if self.armed and self.fault_at is not None and idx in self.fault_at:
            raise InjectedFault(f"injected fault at learner call {idx} ({kind})")
        return idx

    def rows(self, X):
        X = np.asarray(X, dtype=float)
        if not self.idmap or X.ndim != 2 or X.shape[0] == 0:
            return None
        for j in range(X.shape[1]):
            try:
                return tuple(self.idmap[round(float(v), 10)] for v in X[:, j])
            except KeyError:
                continue
        return None


CTL = Control()


class _Spy(BaseEstimator):
    def _fit_core(self, X, y, w):
        CTL.call("fit")
        X = np.asarray(X, dtype=float)
        yy = np.asarray(y, dtype=float).ravel()
        with np.errstate(all="ignore"):
            ww = np.ones(len(yy)) if w is None else np.asarray(w, dtype=float).ravel()
            sw = ww.sum()
            mx = (ww[:, None] * X).sum(0) / sw
            my = (ww * yy).sum() / sw
            Xc = X - mx
            A = Xc.T @ (ww[:, None] * Xc) + self.lam * np.eye(X.shape[1])
            b = Xc.T @ (ww * (yy - my))
            beta = np.linalg.solve(A, b)
        self.coef_ = beta
        self.intercept_ = my - mx @ beta
        self.n_features_in_ = X.shape[1]
        with CTL.lock:
            CTL.serial += 1
            self.fit_id_ = CTL.serial
        if CTL.log_on:
            ev = {"kind": "fit", "tag": self.tag, "lam": self.lam, "rows": CTL.rows(X), "X": X.copy(), "y": yy.copy(),
                  "w": None if w is None else ww.copy(), "fit_id": self.fit_id_}
            with CTL.lock:
                CTL.events.append(ev)

    def _pred_core(self, X, kind):
        idx = CTL.call("predict")
        X = np.asarray(X, dtype=float)
        out = self.intercept_ + X @ self.coef_
        return idx, X, out

    def _log_pred(self, X, out):
        if CTL.log_on:
            ev = {"kind": "predict", "tag": self.tag, "lam": self.lam, "rows": CTL.rows(X), "X": X.copy(), "out": out.copy(),
                  "fit_id": self.fit_id_}
            with CTL.lock:
                CTL.events.append(ev)

    def _maybe_nan(self, idx, out):
        if CTL.armed and CTL.nan_at is not None and idx in CTL.nan_at:
            out = out.copy()
            if CTL.nan_last == "mid":
                out[len(out) // 2] = CTL.nan_value
            elif CTL.nan_last == "first":
                out[0] = CTL.nan_value
            elif CTL.nan_last:
                out[-1] = CTL.nan_value
            else:
                out[: max(1, len(out) // 2)] = CTL.nan_value
        return out


class SpyReg(RegressorMixin, _Spy):
    def __init__(self, tag="", lam=1.0):
        self.tag = tag
        self.lam = lam

    def fit(self, X, y, sample_weight=None):
        self._fit_core(X, y, sample_weight)
        return self

    def predict(self, X):
        idx, X, out = self._pred_core(X, "predict")
        out = self._maybe_nan(idx, out)
        self._log_pred(X, out)
        return out


class SpyClf(ClassifierMixin, _Spy):
    def __init__(self, tag="", lam=1.0):
        self.tag = tag
        self.lam = lam

    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.unique(np.asarray(y))
        self._fit_core(X, np.asarray(y).astype(float), sample_weight)
        return self

    def predict_proba(self, X):
        idx, X, out = self._pred_core(X, "predict_proba")
        p = 1.0 / (1.0 + np.exp(-4.0 * (out - 0.5)))
        p = self._maybe_nan(idx, p)
        self._log_pred(X, p)
        if len(self.classes_) == 1:
            CTL.nan_void = CTL.nan_void or not np.isfinite(p).all()
            return np.ones((X.shape[0], 1))
        return np.column_stack((1.0 - p, p))

    def predict(self, X):
        idx, X, out = self._pred_core(X, "predict")
        if len(self.classes_) == 1:
            res = np.full(X.shape[0], self.classes_[0])
        else:
            res = self.classes_[(out > 0.5).astype(int)]
        lab = self._maybe_nan(idx, np.asarray(res, dtype=float))
        self._log_pred(X, lab)
        return res if np.array_equal(lab, np.asarray(res, dtype=float)) else lab


def lin(tag="", lam=1.0):
    return SpyReg(tag=tag, lam=lam)


def clf(tag="", lam=1.0):
    return SpyClf(tag=tag, lam=lam)


class _TuneMixin:
    """spy whose score under cross-validation is decided by CTL.tune(estimator, X_test, y_test)"""

    def score(self, X, y, sample_weight=None):
        return CTL.tune(self, X, y)


class TuneReg(_TuneMixin, SpyReg):
    def fit(self, X, y, sample_weight=None):
        self.seen_ = (np.array(X, dtype=float), np.array(y, dtype=float).ravel())
        return SpyReg.fit(self, X, y, sample_weight)


class TuneClf(_TuneMixin, SpyClf):
    def fit(self, X, y, sample_weight=None):
        self.seen_ = (np.array(X, dtype=float), np.array(y, dtype=float).ravel())
        return SpyClf.fit(self, X, y, sample_weight)


class TabReg(RegressorMixin, BaseEstimator):
    """predictions are looked up in CTL.table(tag, rows it was fitted on, rows asked for)"""

    def __init__(self, tag="", lam=1.0):
        self.tag = tag
        self.lam = lam

    def fit(self, X, y, sample_weight=None):
        CTL.call("fit")
        X = np.asarray(X, dtype=float)
        self.rows_ = CTL.rows(X)
        self.n_features_in_ = X.shape[1]
        with CTL.lock:
            CTL.serial += 1
            self.fit_id_ = CTL.serial
        if CTL.log_on:
            with CTL.lock:
                CTL.events.append({"kind": "fit", "tag": self.tag, "lam": self.lam, "rows": self.rows_, "X": X.copy(),
                                   "y": np.asarray(y, dtype=float).ravel().copy(), "w": None, "fit_id": self.fit_id_})
        return self

    def _vals(self, X):
        return np.asarray(CTL.table(self.tag, self.rows_, CTL.rows(X)), dtype=float)

    def predict(self, X):
        CTL.call("predict")
        return self._vals(X)


class TabClf(ClassifierMixin, TabReg):
    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.unique(np.asarray(y))
        return TabReg.fit(self, X, np.asarray(y).astype(float))

    def predict_proba(self, X):
        CTL.call("predict_proba")
        p = self._vals(X)
        if len(self.classes_) == 1:
            return np.ones((len(p), 1))
        return np.column_stack((1.0 - p, p))

    def predict(self, X):
        p = self._vals(X)
        if len(self.classes_) == 1:
            return np.full(len(p), self.classes_[0])
        return self.classes_[(p > 0.5).astype(int)]
