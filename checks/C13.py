"""C13 data roles: explicit-state exploration of the data objects.  The abstract state is the tuple of roles; every reachable state
(merged search) and every unmerged operation sequence to a depth is executed on the real object and compared with an independent
model of the roles and with a freshly constructed object."""
import copy
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc.core import Check, canon, h


def frame(seed, index="range"):
    import pandas as pd

    r = np.random.RandomState(seed)
    n = 8
    df = pd.DataFrame({
        "y": r.randn(n), "v": np.array([0, 1, 1, 0, 1, 0, 0, 1], float), "d1": np.array([0, 0, 1, 1, 0, 1, 0, 1]),
        "d2": r.randn(n), "x1": r.randn(n), "xn": r.randn(n), "xi": r.randn(n), "z1": np.array([1, 2, 1, 2, 1, 1, 2, 2]),
        "t1": np.array([0, 1] * 4), "s1": np.array([0, 1, 1, 1] * 2), "c1": np.arange(n) // 2, "c2": np.arange(n) % 2 + 0.5,
        "cn": np.array([1.0, np.nan] * 4)})
    df.loc[2, "xn"] = np.nan
    df.loc[3, "xi"] = np.inf
    if index == "odd":
        df.index = [5, 3, 3, 9, 0, 1, 2, 7]
    return df


# ------------------------------------------------------------------ model
COLS = ["y", "v", "d1", "d2", "x1", "xn", "xi", "z1", "t1", "s1", "c1", "c2", "cn"]
NAN, INF = {"xn", "cn"}, {"xi"}
ROLES = ("y", "d", "x", "z", "t", "s", "c", "o", "f")


class Bad(Exception):
    pass


def as_list(v, none_ok):
    if v is None and none_ok:
        return None
    if isinstance(v, str):
        v = [v]
    if not isinstance(v, list):
        raise Bad("type")
    if len(set(v)) != len(v):
        raise Bad("duplicate")
    if any(c not in COLS for c in v):
        raise Bad("unknown column")
    return tuple(v)


def as_col(v, none_ok):
    if v is None and none_ok:
        return None
    if not isinstance(v, str):
        raise Bad("type")
    if v not in COLS:
        raise Bad("unknown column")
    return v


def validate(st):
    """st: dict of roles, raises Bad when no object may have them"""
    if len(st["d"]) == 0:
        raise Bad("no treatment")
    sets = [("y", [st["y"]]), ("d", st["d"]), ("x", st["x"]), ("z", st["z"] or ()), ("t", [st["t"]] if st["t"] else []),
            ("s", [st["s"]] if st["s"] else []), ("c", st["c"] or ())]
    for (a, u), (b, v) in itertools.combinations(sets, 2):
        if set(u) & set(v):
            raise Bad(f"{a} and {b} share a column")
    for r, u in sets:
        if r != "x" and set(u) & (NAN | INF):
            raise Bad(f"{r} not finite")
    if st["f"] is True and set(st["x"]) & (NAN | INF):
        raise Bad("x not finite")
    if st["f"] == "allow-nan" and set(st["x"]) & INF:
        raise Bad("x infinite")


def default_x(st):
    used = {st["y"], *st["d"], *(st["z"] or ()), st["t"], st["s"], *(st["c"] or ())}
    return tuple(c for c in COLS if c not in used)


def apply_model(st, role, v):
    """new state or Bad; the active treatment is not part of the state"""
    st = dict(st)
    if role == "y":
        st["y"] = as_col(v, False)
    elif role == "d":
        st["d"] = as_list(v, False)
    elif role == "x":
        v = as_list(v, True)
        st["x"] = default_x(st) if v is None else v
    elif role == "z":
        st["z"] = as_list(v, True)
    elif role in ("t", "s"):
        st[role] = as_col(v, True)
    elif role == "c":
        st["c"] = as_list(v, False)
    elif role == "o":
        if not isinstance(v, bool):
            raise Bad("type")
        st["o"] = v
    elif role == "f":
        if not (isinstance(v, bool) or v == "allow-nan"):
            raise Bad("force_all_x_finite")
        st["f"] = v
    elif role == "set":
        if v not in st["d"]:
            raise Bad("no treatment")
        return st
    validate(st)
    return st


ATTR = dict(y="y_col", d="d_cols", x="x_cols", z="z_cols", t="t_col", s="s_col", c="cluster_cols", o="use_other_treat_as_covariate",
            f="force_all_x_finite")
OPS = [("y", v) for v in ("y", "v", "xn", "nope", 3, "d1")]
OPS += [("d", v) for v in ("d1", ["d1", "d2"], ["d2", "d1"], ["v"], ["d1", "d1"], [], None, ["d1", "xn"], ["d1", "nope"])]
OPS += [("x", v) for v in (None, ["x1"], ["x1", "xn"], ["xi", "x1"], "x1", ["x1", "x1"], ["nope"], ["x1", "d2"], ("x1",), ["x1", "c2"])]
OPS += [("z", v) for v in (None, "z1", ["z1", "v"], ["xn"], ["x1"], ["nope"], ["z1", "z1"], ("z1",))]
OPS += [("t", v) for v in (None, "t1", "v", "xn", 5, "nope")]
OPS += [("s", v) for v in (None, "s1", "t1", "xi", ["s1"])]
OPS += [("o", v) for v in (True, False, 1)]
OPS += [("f", v) for v in (True, False, "allow-nan", "bad", None)]
OPS += [("set", v) for v in ("d1", "d2", "x1")]
COPS = [("c", v) for v in ("c1", ["c1", "c2"], ["c2"], ["c1", "c1"], ["x1"], ["cn"], None, "nope", ["t1"])]


def key(st):
    return tuple(st[r] for r in ROLES)


def construct(df, st, x="explicit", active=None):
    import doubleml as dml

    kw = dict(x_cols=list(st["x"]) if x == "explicit" else None, z_cols=None if st["z"] is None else list(st["z"]), t_col=st["t"], s_col=st["s"],
              use_other_treat_as_covariate=st["o"], force_all_x_finite=st["f"])
    if st["c"] is not None:
        return dml.DoubleMLClusterData(df, st["y"], list(st["d"]), list(st["c"]), **kw)
    return dml.DoubleMLData(df, st["y"], list(st["d"]), **kw)


def view(data, active=True, text=False):
    """everything a user can read; arrays for every treatment"""
    out = {a: getattr(data, a) for r, a in ATTR.items() if r != "c"}
    out["cluster"] = (data.cluster_cols, data.cluster_vars, data.n_cluster_vars) if hasattr(data, "cluster_cols") else None
    for a in ("y", "z", "t", "s", "n_treat", "n_coefs", "n_instr", "n_obs", "binary_outcome"):
        out[a] = getattr(data, a)
    bt = data.binary_treats
    out["binary_treats"] = (list(bt.index), [bool(b) for b in bt.values])
    out["cols"] = list(data.all_variables)
    if text:
        out["str"] = str(data)
    if active:
        out["d"], out["x"] = data.d, data.x
    c = copy.copy(data)
    per = []
    for t in data.d_cols:
        c.set_x_d(t)
        per.append((c.d, c.x))
    out["per"] = per
    return out


def reference(df, st):
    """the public view predicted from the roles alone"""
    out = {}
    out["y_col"], out["d_cols"], out["x_cols"] = st["y"], list(st["d"]), list(st["x"])
    out["z_cols"] = None if st["z"] is None else list(st["z"])
    out["t_col"], out["s_col"], out["use_other_treat_as_covariate"], out["force_all_x_finite"] = st["t"], st["s"], st["o"], st["f"]
    out["y"] = df[st["y"]].to_numpy()
    out["z"] = None if st["z"] is None else df[list(st["z"])].to_numpy()
    out["t"] = None if st["t"] is None else df[st["t"]].to_numpy()
    out["s"] = None if st["s"] is None else df[st["s"]].to_numpy()
    out["cluster"] = None if st["c"] is None else (list(st["c"]), df[list(st["c"])].to_numpy(), len(st["c"]))
    out["n_treat"] = out["n_coefs"] = len(st["d"])
    out["n_instr"] = 0 if st["z"] is None else len(st["z"])
    out["n_obs"] = len(df)
    out["binary_outcome"] = bool(set(df[st["y"]]) <= {0, 1})
    out["binary_treats"] = (list(st["d"]), [bool(set(df[c]) <= {0, 1}) for c in st["d"]])
    out["cols"] = list(df.columns)
    out["per"] = [(df[t].to_numpy(), df[list(st["x"]) + ([c for c in st["d"] if c != t] if st["o"] else [])].to_numpy()) for t in st["d"]]
    return out


def same(a, b):
    return canon(a) == canon(b)


EXPECT = {}


def digest(v):
    return {k: canon(x) for k, x in v.items() if k not in ("d", "x")}


def compare(rec, kind, df, data, st, what):
    """the object's public view is the one its roles imply, and that of a fresh object"""
    got = view(data)
    ek = (key(st), id(df))
    if ek in EXPECT:
        exp, pairs = EXPECT[ek]
        if digest(got) == exp and canon((got["d"], got["x"])) in pairs:
            return True
    ok = compare_slow(rec, kind, df, data, st, what, got)
    if ok:
        got = view(data)
        EXPECT[ek] = (digest(got), [canon(p) for p in got["per"]])
    return ok


def compare_slow(rec, kind, df, data, st, what, got):
    want = reference(df, st)
    for k in want:
        if not same(got[k], want[k]):
            if k == "binary_outcome" and bool(got[k]) == want[k]:
                continue
            rec.fail(f"{kind}:{k}", f"{what}: {k} is {got[k]}, the roles {st} imply {want[k]}")
            return False
    if not any(same((got["d"], got["x"]), p) for p in want["per"]):
        rec.fail(f"{kind}:active", f"{what}: the active d and x belong to no treatment of {st['d']}")
        return False
    fresh = construct(df, st)
    gf = view(fresh, text=True)
    got = view(data, text=True)
    for k in got:
        if k not in ("d", "x") and not same(got[k], gf[k]):
            rec.fail(f"{kind}:fresh:{k}", f"{what}: {k} is {got[k]}, a fresh object has {gf[k]}")
            return False
    return True


def do(data, role, v):
    v = copy.copy(v)
    if role == "set":
        data.set_x_d(v)
    else:
        setattr(data, ATTR[role], v)


def step(rec, df, data, st, op, what):
    """one transition: returns the new state, or None on failure"""
    role, v = op
    try:
        nxt = apply_model(st, role, v)
        bad = None
    except Bad as e:
        nxt, bad = st, str(e)
    rec.step()
    cur = canon(data.d), canon(data.x)
    try:
        do(data, role, v)
        err = None
    except Exception as e:
        err = e
    if bad is None and err is not None:
        rec.fail(f"refused:{role}", f"{what}: {ATTR.get(role, 'set_x_d')} = {v} raised {type(err).__name__}: {err}")
        return None
    if bad is not None and err is None:
        rec.fail(f"accepted:{role}", f"{what}: {ATTR.get(role, 'set_x_d')} = {v} was accepted ({bad})")
        return None
    if bad is not None:
        if cur != (canon(data.d), canon(data.x)):
            rec.fail(f"atomic:{role}", f"{what}: the rejected assignment {ATTR.get(role, 'set_x_d')} = {v} changed the active treatment")
            return None
        if role == "f" and data.force_all_x_finite != st["f"]:
            # the requirement itself may stay recorded when the covariates do not meet it (the documented tests pin
            # that); it must be the requested one, and taking it back must give the object the roles imply
            if not (data.force_all_x_finite is v or data.force_all_x_finite == v):
                rec.fail("atomic:f", f"{what}: the rejected force_all_x_finite = {v} left {data.force_all_x_finite}")
                return None
            do(data, "f", st["f"])
        if not compare(rec, f"atomic:{role}", df, data, st, f"{what} then the rejected {ATTR.get(role, 'set_x_d')} = {v}"):
            return None
        return st
    if not compare(rec, f"state:{role}", df, data, nxt, f"{what} then {ATTR.get(role, 'set_x_d')} = {v}"):
        return None
    if role == "set" and not same(data.d, df[v].to_numpy()):
        rec.fail("state:set:d", f"{what}: set_x_d({v}) does not activate {v}")
        return None
    return nxt


def start(cluster, first):
    st = dict(y="y", d=("d1",), x=(), z=None, t=None, s=None, c=("c1",) if cluster else None, o=True, f=False)
    if first == 1:
        st.update(d=("d1", "d2"), z=("z1",), o=False)
    if first == 2:
        st.update(d=("d2", "v"), t="t1", s="s1", o=True)
    st["x"] = ("x1",) if first != 2 else default_x(st)
    return st


def bfs_case(case, rec):
    """merged search over all reachable role states from one start; this case owns the states whose hash falls in its share"""
    df = frame(case["seed"], case["index"])
    ops = OPS + (COPS if case["cluster"] else [])
    # reachable states of the model (cheap), then every outgoing transition of the states owned by this case on the real object
    s0 = start(case["cluster"], case["first"])
    seen = {key(s0): s0}
    todo = [s0]
    depth = {key(s0): 0}
    while todo:
        nxt = []
        for st in todo:
            if depth[key(st)] >= case["depth"]:
                continue
            for op in ops:
                if op[0] == "set":
                    continue
                try:
                    n = apply_model(st, *op)
                except Bad:
                    continue
                if key(n) not in seen:
                    seen[key(n)] = n
                    depth[key(n)] = depth[key(st)] + 1
                    nxt.append(n)
        todo = nxt
    for k, st in sorted(seen.items(), key=lambda kv: repr(kv[0])):
        if int(h(k), 16) % case["of"] != case["share"]:
            continue
        rec.state(case["cluster"], k)
        base = construct(df, st)
        if not compare(rec, "construct", df, base, st, f"constructed with {st}"):
            return
        if st["x"] == default_x(st) and not compare(rec, "default-x", df, construct(df, st, x="default"), st, "constructed without covariates"):
            return
        rec.trace()
        for op in ops:
            data = copy.copy(base)
            if step(rec, df, data, st, op, f"state {st}") is None:
                return
            rec.trace()
        rec.outcome(k)


def seq_case(case, rec):
    """unmerged operation sequences: the object is really driven through the history"""
    df = frame(case["seed"], case["index"])
    before = canon(df)
    ops = OPS + (COPS if case["cluster"] else [])
    s0 = start(case["cluster"], case["first"])
    sub = [ops[i] for i in case["ops"]]
    for seq in itertools.product(sub, repeat=case["len"] - 1):
        seq = (ops[case["lead"]],) + seq
        data = construct(df, s0)
        st = s0
        for i, op in enumerate(seq):
            st = step(rec, df, data, st, op, f"start {case['first']}, history {seq[:i]}")
            if st is None:
                return
        rec.trace()
        rec.state(case["cluster"], "seq", key(st))
    rec.expect(canon(df) == before, "frame", "the caller's frame was changed")


def array_case(case, rec):
    """construction from arrays equals construction from the frame with the documented names"""
    import doubleml as dml
    import pandas as pd

    r = np.random.RandomState(case["seed"])
    n = 7
    shapes = {"1d": lambda k: r.randn(n), "2d1": lambda k: r.randn(n, 1), "2d2": lambda k: r.randn(n, 2), "none": lambda k: None,
              "list": lambda k: r.randn(n).tolist(), "int": lambda k: r.randint(0, 2, n)}
    for xs, ds, zs, ts, ss, cs, force, bad in itertools.product(("1d", "2d2"), ("1d", "2d1", "2d2", "int"), ("none", "1d", "2d1", "2d2"), ("none", "int"), ("none", "1d"),
                                                               ("none", "1d", "2d2"), (True, "allow-nan", False), case["bad"]):
        x, d, z, t, s, c, y = shapes[xs](0), shapes[ds](0), shapes[zs](0), shapes[ts](0), shapes[ss](0), shapes[cs](0), r.randn(n)
        valid = True
        if bad == "xnan":
            x = np.array(x, float)
            x.flat[1] = np.nan
            valid = force is not True
        elif bad == "xinf":
            x = np.array(x, float)
            x.flat[1] = np.inf
            valid = force is False
        elif bad in ("ynan", "dnan", "znan", "tnan", "snan", "cnan"):
            a = {"y": y, "d": d, "z": z, "t": t, "s": s, "c": c}[bad[0]]
            if a is None:
                continue
            a = np.array(a, float)
            a.flat[1] = np.nan
            y, d, z, t, s, c = [a if nm == bad[0] else b for nm, b in zip("ydztsc", (y, d, z, t, s, c))]
            valid = False
        elif bad in ("ylen", "dlen", "zlen", "tlen", "slen", "clen"):
            a = {"y": y, "d": d, "z": z, "t": t, "s": s, "c": c}[bad[0]]
            if a is None:
                continue
            a = a[:-1]
            y, d, z, t, s, c = [a if nm == bad[0] else b for nm, b in zip("ydztsc", (y, d, z, t, s, c))]
            valid = False
        keep = canon([x, y, d, z, t, s, c])
        kw = dict(z=z, t=t, s=s, use_other_treat_as_covariate=case["other"], force_all_x_finite=force)
        what = f"from_arrays x {xs} d {ds} z {zs} t {ts} s {ss} clusters {cs} force {force} defect {bad}"
        rec.step()
        rec.trace()
        try:
            data = dml.DoubleMLData.from_arrays(x, y, d, **kw) if c is None else dml.DoubleMLClusterData.from_arrays(x, y, d, c, **kw)
            err = None
        except (ValueError, TypeError) as e:
            err = e
        rec.expect(canon([x, y, d, z, t, s, c]) == keep, "arrays-modified", f"{what}: arrays modified")
        if (err is None) != valid:
            rec.fail(f"arrays:accept:{bad}", f"{what}: {'accepted' if err is None else f'refused: {err}'}")
            return
        if err is not None:
            continue
        two = lambda a: np.asarray(a, float).reshape(n, -1)
        df = pd.DataFrame(index=range(n))

        def put(a, one, many):
            if a is None:
                return None
            a = two(a)
            names = [one] if a.shape[1] == 1 and one else [f"{many}{i + 1}" for i in range(a.shape[1])]
            for i, nm in enumerate(names):
                df[nm] = a[:, i]
            return tuple(names)

        st = dict(x=put(x, None, "X"), y=put(y, "y", "y")[0], d=put(d, "d", "d"), z=put(z, "z", "z"), o=case["other"], f=force)
        st["t"] = (put(t, "t", "t") or [None])[0]
        st["s"] = (put(s, "s", "s") or [None])[0]
        st["c"] = put(c, "cluster_var", "cluster_var")
        got, want = view(data), reference(df, st)
        for k in want:
            if k == "cols":
                ok = set(got[k]) == set(want[k])
            elif k in ("t", "cluster", "z", "s", "per", "y"):
                ok = flt(got[k]) == flt(want[k])
            else:
                ok = same(got[k], want[k]) or (k == "binary_outcome" and bool(got[k]) == want[k])
            if not ok:
                rec.fail(f"arrays:{k}", f"{what}: {k} is {got[k]}, expected {want[k]}")
                return
        rec.state("arrays", xs, ds, zs, ts, ss, cs, force, case["other"])
        rec.outcome(what)


def flt(o):
    """canonical form ignoring integer against float storage"""
    if isinstance(o, np.ndarray):
        return canon(o.astype(float))
    if isinstance(o, (list, tuple)):
        return tuple(flt(v) for v in o)
    return canon(o)


def case_fn(case, rec):
    {"bfs": bfs_case, "seq": seq_case, "arrays": array_case}[case["kind"]](case, rec)


def cases(tier, seed):
    thor = tier == "thorough"
    for cluster in (False, True):
        nops = len(OPS) + (len(COPS) if cluster else 0)
        of = 16 if not thor else 64
        for first in range(3):
            for sh in range(of):
                yield dict(kind="bfs", name="bfs", cluster=cluster, first=first, depth=2 if not thor else 3, share=sh, of=of, seed=seed, index="range" if first else "odd")
        ok = [i for i, op in enumerate(OPS + (COPS if cluster else [])) if op not in (("y", "nope"), ("y", 3), ("x", ["nope"]), ("z", ["nope"]), ("t", 5), ("t", "nope"), ("s", ["s1"]),
              ("d", ["d1", "nope"]), ("d", None), ("x", ("x1",)), ("z", ("z1",)), ("c", None), ("c", "nope"))]
        small = ok[:: 4] if not thor else ok[:: 2]
        for first in ((1, 2) if thor else (1 + cluster,)):
            for lead in range(nops):
                yield dict(kind="seq", name="seq", cluster=cluster, first=first, len=3, lead=lead, ops=small, seed=seed, index="range")
    for other in (True, False):
        for bad in [[b] for b in ("none", "xnan", "xinf", "ynan", "dnan", "znan", "tnan", "snan", "cnan", "ylen", "dlen", "zlen", "tlen", "slen", "clen")]:
            yield dict(kind="arrays", name="arrays", bad=bad, other=other, seed=seed)


if __name__ == "__main__":
    Check("C13", case_fn, cases, rule="all role states reachable within 2 (thorough 3) valid assignments from three starts, every valid and invalid assignment "
          "from each of them; all unmerged assignment sequences of length 3; all array shape/defect combinations").main()
