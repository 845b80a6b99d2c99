"""C20 schedules of the parallel work: every joblib parallel region entered by the code runs under a controlled scheduler (mc/sched.py) and all
orders of its tasks are enumerated - with shared memory (thread pools) and with pickled tasks and results (process pools), with every preemption
of real threads at learner calls, function entries or source lines within a bound - and everything the object reports afterwards is compared with
the run without parallelism."""
import itertools
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from checks.C08 import Clustered, Comp, Single
from mc import observe as O
from mc.catalog import catalog, smpls_from_labels
from mc.core import Check
from mc.sched import Choices, Scheduler, installed, successors
from mc.spy import CTL, clf, lin


class Repeat(Choices):
    """the same order in every region"""

    def __init__(self, seq):
        super().__init__()
        self.seq, self.pos, self.last = seq, 0, None

    def pick(self, n):
        # positions restart when the number of running tasks goes up again
        if self.last is not None and n > self.last:
            self.pos = 0
        self.last = n
        c = self.seq[self.pos % len(self.seq)] % n
        self.pos += 1
        self.trace.append((c, n))
        return c


def repo_root():
    import doubleml

    return os.path.dirname(doubleml.__file__) + os.sep


def explore(rec, run, want, key, what, w, mode="atomic", isolate=False, preempt=0, grain="call", limit=400, each=True, share=(0, 1)):
    """run(sched-context) -> snapshot; returns False at the first difference"""

    def one(ch, regions=None, desc=""):
        sc = Scheduler(ch, mode=mode, isolate=isolate, preempt=preempt, grain=grain, regions=regions, root=repo_root())
        try:
            with installed(sc):
                got = run()
        except (ValueError, TypeError, AttributeError, KeyError, IndexError, RuntimeError, AssertionError) as e:
            rec.fail(f"{key}:raised", f"{what}, schedule {desc or [t[0] for t in ch.trace]}: raised {type(e).__name__}: {e}")
            return None
        rec.step(sc.tasks_run + sc.points)
        rec.trace()
        rec.state(key, what, mode, isolate, w, tuple(t[0] for t in ch.trace))
        rec.outcome("%s|%s" % (key, what))
        dd = O.diff(got, want)
        if dd:
            rec.fail(f"{key}:{dd.split(':')[0].split('[')[0][:60]}", f"{what}, {mode}{' isolated' if isolate else ''} {w} workers, schedule "
                     f"{desc or [t[0] for t in ch.trace]}: differs from the sequential run at {dd[:300]}")
            return None
        return sc

    first = one(Choices())
    if first is None:
        return False
    tr = first.ch.trace
    total = 1
    for _, n in tr:
        total = min(total * n, 10**9)
    R = first.n_regions
    if mode == "threads" or total <= limit:
        todo = successors(tr, [])[share[0] :: share[1]]
        n = 1
        while todo:
            pre = todo.pop()
            sc = one(Choices(pre))
            if sc is None:
                return False
            n += 1
            todo += successors(sc.ch.trace, pre)
            if n > 200000:
                rec.fail("harness:limit", f"{what}: more schedules than foreseen")
                return False
        return True
    if each:
        for r in range(R):
            sc = one(Choices(), regions={r}, desc=f"region {r}: []")
            if sc is None:
                return False
            todo = successors(sc.ch.trace, [])
            while todo:
                pre = todo.pop()
                sc = one(Choices(pre), regions={r}, desc=f"region {r}: {pre}")
                if sc is None:
                    return False
                todo += successors(sc.ch.trace, pre)
    k = max(n for _, n in tr)
    for seq in itertools.product(*[range(j) for j in range(k, 1, -1)]):
        if one(Repeat(seq), desc=f"every region: {seq}") is None:
            return False
    return True


# ------------------------------------------------------------------ subjects
def single_subject(name, seed, folds):
    S = Single(catalog(2)[name], seed)
    if folds == 3 and not S.wbar:
        S.A = [smpls_from_labels(S.df.block, [0, 1, 2, 1]), smpls_from_labels(S.df.block, [2, 0, 1, 1])]
    return S


def with_boot(S, m):
    if not isinstance(S, Clustered):
        np.random.seed(3)
        m.bootstrap(n_rep_boot=2)
    return S.observe(m)


def fit_case(case, rec):
    name, seed = case["name_"], case["seed"]
    S = Clustered(name, seed) if name.startswith("CL-") else single_subject(name, seed, case["folds"])
    CTL.reset(None, log=False)
    for store in (False, True):
        m = S.fresh()
        m.fit(store_models=store)
        want = with_boot(S, m)
        # n_jobs_cv does not change the sequential result either
        for w, iso in case["cfg"]:

            def run(then=None):
                m = S.fresh()
                m.fit(n_jobs_cv=w, store_models=store)
                return with_boot(S, m)

            if not explore(rec, run, want, f"fit:{name}", f"fit(store_models={store}, n_jobs_cv={w}) {case['folds']} folds", w, isolate=iso, limit=case["limit"]):
                return


def tune_snap(S, m, res):
    out = {"params": O.snap(m.params)}
    if res is not None:
        out["res"] = [strip(r) for r in (res if isinstance(res, list) else [res])]
    m.fit(store_models=True)
    out["model"] = S.observe(m)
    return out


def strip(r):
    from sklearn.model_selection import GridSearchCV, RandomizedSearchCV

    if isinstance(r, dict):
        return {str(k): strip(v) for k, v in r.items()}
    if isinstance(r, (list, tuple)):
        return [strip(v) for v in r]
    if isinstance(r, (GridSearchCV, RandomizedSearchCV)):
        return {"params": O.snap(r.best_params_), "score": r.best_score_, "est": O.snap(r.best_estimator_),
                "cv": {k: O.snap(v) for k, v in r.cv_results_.items() if "time" not in k}}
    return O.snap(r)


def tune_case(case, rec):
    name, seed = case["name_"], case["seed"]
    S = single_subject(name, seed, 2)
    CTL.reset(None, log=False)
    for on_folds, mode in case["modes"]:

        def tune(w):
            m = S.fresh()
            np.random.seed(seed + 1)
            grids = {k: {"lam": [0.5, 4.0]} for k in m.learner_names}
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = m.tune(grids, n_folds_tune=2, tune_on_folds=on_folds, search_mode=mode, n_iter_randomized_search=2, n_jobs_cv=w, return_tune_res=True,
                           scoring_methods={k: "neg_mean_squared_error" for k in m.learner_names})
            return tune_snap(S, m, r)

        want = tune(None)
        for w, iso in case["cfg"]:
            if not explore(rec, lambda: tune(w), want, f"tune:{name}", f"tune(tune_on_folds={on_folds}, {mode}, n_jobs_cv={w})", w, isolate=iso, limit=case["limit"],
                           each=case["each"]):
                return


def comp_follow(S, m, kw, fit_again):
    """the fitted composite and what is done with it afterwards"""
    out = {"fit": S.observe(m)}
    np.random.seed(3)
    m.bootstrap(n_rep_boot=2)
    out["boot"] = S.observe(m)
    if S.apos:
        c = m.causal_contrast(reference_levels=0)
        np.random.seed(4)
        out["contrast"] = O.framework(c.bootstrap(n_rep_boot=2))
        m.sensitivity_analysis()
        out["sens"] = O.composite(m)
    if fit_again:
        m.set_sample_splitting(S.B)
        m.fit(store_models=True)
        out["again"] = S.observe(m)
    return out


def comp_case(case, rec):
    name, seed = case["name_"], case["seed"]
    S = Comp(name, seed)
    CTL.reset(None, log=False)
    for kw in case["kws"]:
        m = S.fresh()
        m.fit(**kw)
        want = comp_follow(S, m, kw, True)
        for wm, wc, iso in case["cfg"]:

            def run():
                m = S.fresh()
                m.fit(n_jobs_models=wm, n_jobs_cv=wc, **kw)
                # what follows runs without parallelism
                return comp_follow(S, m, kw, True)

            if not explore(rec, run, want, f"comp:{name}", f"fit(n_jobs_models={wm}, n_jobs_cv={wc}, {kw})", (wm, wc), isolate=iso, limit=case["limit"], each=case["each"]):
                return


def thread_case(case, rec):
    name, seed = case["name_"], case["seed"]
    comp = name.startswith(("APOS", "QTE"))
    S = Comp(name, seed) if comp else single_subject(name, seed, 2)
    if case["rep1"]:
        S.A = S.A[:1]
    if comp:
        S.levels = [2, 0]
    CTL.reset(None, log=False)
    store = case["store"]

    def go(w):
        m = S.fresh()
        m.fit(store_models=store, **({"n_jobs_models" if comp else "n_jobs_cv": w}))
        return S.observe(m)

    want = go(None)
    explore(rec, lambda: go(case["w"]), want, f"threads:{name}", f"fit(store_models={store}, {case['w']} workers), {case['preempt']} preemptions at {case['grain']} level",
            case["w"], mode="threads", preempt=case["preempt"], grain=case["grain"], share=case["share"])


def real_case(case, rec):
    """conformance: the real thread pool and the real process pool give a result the explored schedules give (all of them equal the sequential one)"""
    import joblib

    name, seed = case["name_"], case["seed"]
    comp = name.startswith(("APOS", "QTE"))
    S = Comp(name, seed) if comp else single_subject(name, seed, 3)
    CTL.reset(None, log=False)
    want = None
    for store in (False, True):
        m = S.fresh()
        m.fit(store_models=store)
        want = S.observe(m)
        with joblib.parallel_config(backend=case["backend"]):
            m = S.fresh()
            try:
                m.fit(store_models=store, n_jobs_cv=2, **({"n_jobs_models": 2} if comp else {}))
            except (PermissionError, OSError, ImportError) as e:
                rec.outcome(f"no process pool here: {type(e).__name__}")
                return
        dd = O.diff(S.observe(m), want)
        rec.step()
        rec.trace()
        rec.state("real", name, case["backend"], store)
        rec.outcome("real|%s" % name)
        rec.expect(not dd, f"real:{name}", f"{case['backend']} pool: {dd}")
    if case["backend"] == "loky":
        from joblib.externals.loky import get_reusable_executor

        get_reusable_executor().shutdown(wait=True, kill_workers=True)


def case_fn(case, rec):
    {"fit": fit_case, "tune": tune_case, "comp": comp_case, "threads": thread_case, "real": real_case}[case["kind"]](case, rec)


COMPS = ["APOS", "QTE-PQ", "QTE-LPQ", "QTE-CVaR"]


def cases(tier, seed):
    thor = tier == "thorough"
    names = list(catalog(2))
    for nm in COMPS if thor else ("APOS", "QTE-PQ"):
        for b in ("loky", "threading"):
            yield dict(kind="real", name="real", name_=nm, backend=b, seed=seed)
    yield dict(kind="real", name="real", name_="IRM-ate", backend="loky", seed=seed)
    for nm in names if thor else ("PLR-po", "IRM-ate", "PQ-1"):
        if nm in names:
            yield dict(kind="real", name="real", name_=nm, backend="threading", seed=seed)
    for nm in COMPS:
        ncomp = 3 if nm == "APOS" else 2
        cfg = [(2, None, False), (2, None, True), (ncomp, 2, False), (3, 2, True)]
        for i, c in enumerate(cfg):
            for kw in ({}, dict(store_models=True), dict(store_models=True, store_predictions=False)):
                yield dict(kind="comp", name="comp", name_=nm, kws=[kw], cfg=[c], limit=8 if not thor else 300, each=thor, seed=seed)
    for nm in COMPS if thor else ("APOS", "QTE-CVaR"):
        of = 8 if not thor else 64
        for sh in range(of):
            yield dict(kind="threads", name="threads", name_=nm, w=2, preempt=1, grain="line" if thor and nm == "APOS" else "call" if thor or nm == "APOS" else "learner", store=False, rep1=True, share=(sh, of), seed=seed)
            if thor:
                yield dict(kind="threads", name="threads", name_=nm, w=2, preempt=2, grain="learner", store=True, rep1=True, share=(sh, of), seed=seed)
    variant = lambda nm: nm.endswith(("-nn", "-norm", "-norm-t", "-biny", "-w", "-wbar", "-call", "-call2", "noNT")) or nm in ("PQ-0", "LPQ-0", "CVaR-0", "PLR-iv-2d", "PLIV-2d")
    for nm in names if thor else [q for q in ("PLR-po", "PLR-2d", "PLIV-po", "IRM-ate", "IIVM-noAT", "APO-1", "PQ-1", "LPQ-1", "CVaR-1", "SSM-mar", "SSM-non", "DID-obs", "DIDCS-exp") if q in names]:
        for grain, store in (("learner", False), ("line", True)) if thor else (("call", True),):
            of = 1 if not thor else 16 if nm.endswith("2d") else 4
            for sh in range(of):
                yield dict(kind="threads", name="threads", name_=nm, w=2, preempt=2 if grain == "learner" and not nm.endswith("2d") else 1, grain=grain, store=store, rep1=True, share=(sh, of), seed=seed)
    if not thor:
        yield dict(kind="threads", name="threads", name_="IRM-ate", w=2, preempt=1, grain="line", store=True, rep1=True, share=(0, 1), seed=seed)
    for nm in names:
        for folds in (2, 3) if thor else (3,):
            yield dict(kind="fit", name="fit", name_=nm, folds=folds, cfg=[(2, False), (3, True)] if not thor else [(2, False), (2, True), (3, False), (3, True), (-1, True)],
                       limit=64 if not thor else 1100, seed=seed)
        if catalog(2)[nm].tune and (thor or not variant(nm)):
            for i, mode in enumerate(itertools.product((False, True), ("grid_search", "randomized_search") if thor else ("grid_search",))):
                yield dict(kind="tune", name="tune", name_=nm, modes=[mode], cfg=[(2, False), (4, True)] if thor else [[(2, False)], [(4, True)]][i], limit=1, each=thor, seed=seed)
    for nm in ("CL-PLR1", "CL-PLR2", "CL-PLIV1", "CL-PLIV2", "CL-IRM1", "CL-IRM2"):
        yield dict(kind="fit", name="fit", name_=nm, folds=2, cfg=[(2, False), (4, True)], limit=16 if not thor else 600, seed=seed)


if __name__ == "__main__":
    Check("C20", case_fn, cases, rule="every joblib parallel region of fit and tune under a controlled scheduler: all completion orders of its tasks with 2, 3 and more "
          "workers (all combinations over regions when few, else all orders of each region with the others first-in first-out and the same order everywhere), with shared "
          "memory and with pickled tasks and results; real threads preempted once (thorough: twice) at every learner call, doubleml function entry or doubleml line; all model "
          "classes, clustered data and composite models; compared with the sequential run, including bootstrap, contrasts, sensitivity and a later refit",
          assumptions=["learners are deterministic", "nested parallel regions of one worker thread run one after another"]).main()
