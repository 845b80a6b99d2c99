"""Controlled execution of joblib parallel regions.

Every `joblib.Parallel` call (doubleml's own and scikit-learn's) made while a Scheduler is installed is executed
under its control, so that one run of the code is one chosen schedule and a depth-first search over the choices
enumerates all of them.

* atomic tasks: `w` workers hold the tasks started first-in first-out, and the choice is which of the running tasks
  takes effect next.  With `isolate` every task is pickled when it is dispatched and its result when it ends (process
  pools), otherwise tasks work on the shared objects (thread pools).
* threads: tasks run in real threads under a baton; the choice at every yield point (learner calls, entries of
  doubleml functions, optionally every doubleml line) is which thread goes on, within a bound on preemptions.

The iterable of tasks is consumed lazily as joblib does (`pre_dispatch`), results are returned in task order (or in
completion order when the caller asks for it).
"""
import contextlib
import os
import sys
import threading

import joblib
import cloudpickle

from mc.spy import CTL


class Choices:
    """a prefix of recorded choices, then always 0"""

    def __init__(self, prefix=(), limit=None):
        self.prefix = list(prefix)
        self.trace = []  # (chosen, number of alternatives)

    def pick(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not c < n:
            raise RuntimeError("replay diverged: the choice is not available")
        self.trace.append((c, n))
        return c


def successors(trace, prefix, depth=None):
    """prefixes of the sibling schedules first reached by this run"""
    out = []
    for i in range(len(prefix), len(trace) if depth is None else min(depth, len(trace))):
        c, n = trace[i]
        for alt in range(c + 1, n):
            out.append([t[0] for t in trace[:i]] + [alt])
    return out


class Scheduler:
    def __init__(self, choices, mode="atomic", isolate=False, preempt=0, grain="call", regions=None, root=None):
        self.ch = choices
        self.mode, self.isolate, self.preempt, self.grain = mode, isolate, preempt, grain
        self.regions = regions  # indices of the regions with free choices (None: all)
        self.n_regions = 0
        self.sizes = []
        self.tasks_run = 0
        self.points = 0
        self.used = 0
        self.depth = 0
        self.root = root
        self.managed = {}
        self.cv = threading.Condition()

    # -- atomic tasks
    def run_atomic(self, par, it, w, free):
        pre = par.pre_dispatch
        if isinstance(pre, str):
            pre = None if pre == "all" else int(eval(pre.replace("n_jobs", str(w)), {}))
        results, finished = {}, []
        queue, running = [], []
        n = 0
        done = False

        def dispatch():
            nonlocal n, done
            if done:
                return
            try:
                t = next(it)
            except StopIteration:
                done = True
                return
            if self.isolate:
                t = cloudpickle.dumps(t)
            queue.append((n, t))
            n += 1

        if pre is None:
            while not done:
                dispatch()
        else:
            for _ in range(max(1, pre)):
                dispatch()
        while queue or running:
            while queue and len(running) < w:
                running.append(queue.pop(0))
            k = self.ch.pick(len(running)) if free and len(running) > 1 else 0
            i, t = running.pop(k)
            f, a, kw = cloudpickle.loads(t) if self.isolate else t
            r = f(*a, **kw)
            self.tasks_run += 1
            results[i] = cloudpickle.loads(cloudpickle.dumps(r)) if self.isolate else r
            finished.append(i)
            dispatch()
        self.sizes.append(n)
        return results, finished

    # -- threads under a baton
    def run_threads(self, par, it, w, free):
        tasks = list(it)
        self.sizes.append(len(tasks))
        results, finished, errors = {}, [], []
        queue = list(enumerate(tasks))
        w = min(w, len(tasks))
        state = {"turn": None, "alive": [], "stop": False}
        main = threading.get_ident()

        def wait_turn(me):
            with self.cv:
                while state["turn"] != me and not state["stop"]:
                    self.cv.wait(timeout=60)
                if state["stop"]:
                    raise SystemExit

        def switch(me, alternatives, cost=0):
            """choose who goes on among alternatives (first = default)"""
            k = self.ch.pick(len(alternatives)) if free and len(alternatives) > 1 else 0
            nxt = alternatives[k]
            if k:
                self.used += cost
            with self.cv:
                state["turn"] = nxt
                self.cv.notify_all()
            if nxt != me and me is not None:
                wait_turn(me)

        def point(me):
            self.points += 1
            others = [o for o in state["alive"] if o != me]
            if not others or self.used >= self.preempt:
                return
            switch(me, [me] + others, cost=1)

        def tracer_for(me):
            root = self.root

            def local(frame, event, arg):
                if event == "line":
                    point(me)
                return local

            def tracer(frame, event, arg):
                fn = frame.f_code.co_filename
                if event == "call" and fn.startswith(root) and f"{os.sep}tests{os.sep}" not in fn:
                    point(me)
                    return local if self.grain == "line" else None
                return None

            return tracer

        def worker(me):
            try:
                wait_turn(me)
                self.managed[threading.get_ident()] = lambda: point(me)
                while queue:
                    i, (f, a, kw) = queue.pop(0)
                    sys.settrace(tracer_for(me) if self.grain != "learner" else None)
                    try:
                        r = f(*a, **kw)
                    finally:
                        sys.settrace(None)
                    results[i] = r
                    finished.append(i)
                    self.tasks_run += 1
                    # the end of a task: any worker may go on
                    if queue:
                        switch(me, [me] + [o for o in state["alive"] if o != me])
            except SystemExit:
                return
            except BaseException as e:
                errors.append(e)
                state["stop"] = True
            finally:
                self.managed.pop(threading.get_ident(), None)
                with self.cv:
                    state["alive"].remove(me)
                    if state["alive"] and not errors:
                        pass
                    else:
                        state["turn"] = "main"
                        self.cv.notify_all()
            if state["alive"] and not errors:
                k = self.ch.pick(len(state["alive"])) if free and len(state["alive"]) > 1 else 0
                with self.cv:
                    state["turn"] = state["alive"][k]
                    self.cv.notify_all()

        old = CTL.hook
        CTL.hook = self.learner_point
        try:
            ts = [threading.Thread(target=worker, args=(j,), daemon=True) for j in range(w)]
            state["alive"] = list(range(w))
            for t in ts:
                t.start()
            with self.cv:
                state["turn"] = 0
                self.cv.notify_all()
            for t in ts:
                t.join(timeout=120)
                if t.is_alive():
                    state["stop"] = True
                    raise RuntimeError("the controlled threads made no progress")
        finally:
            CTL.hook = old
        if errors:
            raise errors[0]
        return results, finished

    def learner_point(self):
        p = self.managed.get(threading.get_ident())
        if p is not None:
            p()

    def call(self, par, iterable, orig):
        w = par._effective_n_jobs()
        if w == 1 or threading.get_ident() in self.managed:
            out = []
            for f, a, kw in iterable:
                out.append(f(*a, **kw))
            return out if not par.return_generator else iter(out)
        idx = self.n_regions
        self.n_regions += 1
        free = self.regions is None or idx in self.regions
        run = self.run_threads if self.mode == "threads" else self.run_atomic
        results, finished = run(par, iter(iterable), w, free)
        order = finished if par.return_as == "generator_unordered" else sorted(results)
        out = [results[i] for i in order]
        return iter(out) if par.return_generator else out


@contextlib.contextmanager
def installed(sched):
    orig = joblib.Parallel.__call__

    def call(self, iterable):
        return sched.call(self, iterable, orig)

    joblib.Parallel.__call__ = call
    try:
        with joblib.parallel_config(backend="threading"):
            yield sched
    finally:
        joblib.Parallel.__call__ = orig
