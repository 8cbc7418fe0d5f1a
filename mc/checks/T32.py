"""T32: what a call returned, or was given, can be edited without affecting anything else."""
import numpy as np
import pandas as pd
import trikit
import mk
import ops
import space

TRIS = {
    "t4": {"shape": [4, 4], "scheme": "month"}, "t5": {"shape": [5, 5], "scheme": "year"},
    "t6": {"shape": [6, 6], "scheme": "gap", "variant": 2}, "rect": {"shape": [3, 5], "scheme": "wide"}, "square": {"shape": [4, 4], "scheme": "span", "full": 1},
    "hole": {"recs": [[i, j, None if (i, j) == (1, 1) else v] for (i, j), v in sorted(space.runoff(5).items())], "scheme": "one"},
    "neg": {"recs": [[i, j, -v if (i, j) in ((0, 2), (1, 3)) else v] for (i, j), v in sorted(space.runoff(5).items())], "scheme": "year"},
}
FULL = {"t4", "t5", "t6", "neg"}                             # complete run-off triangles

# operations beyond the catalogue: calls with default arguments, result properties, packaged data
MORE = [
    ("base-default", lambda w: w.tri.base_cl(), 0),
    ("mack-default", lambda w: w.tri.mack_cl(), 1),
    ("boot-default", lambda w: w.tri.boot_cl(sims=3, random_state=5), 1),
    ("load", lambda w: trikit.load("raa"), 0),
    ("load-cum", lambda w: trikit.load("raa", tri_type="cum"), 0),
    ("load-incr", lambda w: trikit.load("glre", tri_type="incr"), 0),
    ("get_datasets", lambda w: trikit.get_datasets(), 0),
    ("boot.own-origin_dist", lambda w: w.get("boot").origin_dist, 1),
    ("incr.latest_by_origin", lambda w: w.get("incr").latest_by_origin, 0),
    ("incr.rlvi", lambda w: w.get("incr").rlvi, 0),
    ("incr.clvi", lambda w: w.get("incr").clvi, 0),
    ("incr.triind", lambda w: w.get("incr").triind, 0),
    ("incr.maturity", lambda w: w.get("incr").maturity, 0),
]
RUN = {name: (f, need) for name, f, need, show in ops.OPS if not show}
RUN.update({name: (f, need) for name, f, need in MORE})
KEPT = {"a2aind"}                                            # the exclusions themselves: assigning to them is what they are for
NAMES = [n for n in RUN]
EDITS = ["raw", "cells", "labels", "shape"]


def BOUNDS(tier):
    return {"edits": "every object reachable from what each of %d calls returned (tables, Series, arrays, lists, dicts; the triangle a result refers to "
                     "and `a2aind` apart) overwritten in place (through its numpy array and by position), relabelled, and given or robbed of rows and columns%s" % (
                         len(NAMES) - len(KEPT), "" if tier == "quick" else "; all together, and each kind for each object alone"),
            "arguments": "data, factor and quantile containers edited after the call that took them",
            "states": "the call as the first one%s, and after every other call" % ("" if tier == "thorough" else " (t5)"),
            "observed": "afterwards every call again, against a new triangle, and everything returned before",
            "triangles": "t5, t4 with an exclusion and rect (without the bootstrap)" if tier == "quick" else sorted(TRIS)}


def usable(tri, lean=0):
    return [n for n in NAMES if (tri in FULL or not RUN[n][1]) and not (lean and n.startswith("boot"))]


def cases(tier):
    t = tier == "thorough"
    for tri, excl in ([(x, e) for x in TRIS for e in (0, 1)] if t else [("t5", 0), ("t4", 1), ("rect", 0)]):
        lean = int(not t and tri != "t5")
        for name in usable(tri, lean):
            if name in KEPT:
                continue
            for warm in (0, 1) if t or tri == "t5" else (1,):
                yield {"k": "edit", "tri": tri, "excl": excl, "op": name, "warm": warm, "lean": lean, "edits": EDITS}
            if t and tri in ("t5", "rect") and not excl:
                for e in EDITS:
                    yield {"k": "edit", "tri": tri, "excl": excl, "op": name, "warm": 1, "lean": 0, "edits": [e]}
        for name in usable(tri, lean):
            if name.startswith(("base-", "mack", "boot", "totri")):
                yield {"k": "args", "tri": tri, "excl": excl, "op": name, "lean": lean}


def world(case):
    w = ops.World(mk.recs_of({k: v for k, v in TRIS[case["tri"]].items() if k != "full"}))
    if case["excl"]:
        w.tri.a2aind = w.tri.index[0], w.tri.columns[1], 0
    return w


def call(name, w):
    np.random.seed(17)
    try:
        return RUN[name][0](w)
    except Exception as e:                                   # some calls do not apply to some triangles; the kind of refusal must stay
        return "raised " + type(e).__name__


_ORACLE = {}


def oracle(case):
    key = case["tri"], case["excl"], case["lean"]
    if key not in _ORACLE:
        _ORACLE[key] = {n: ops.snap(call(n, world(case))) for n in usable(case["tri"], case["lean"])}
    return _ORACLE[key]


def parts(x, path="", seen=None):
    """(path, object) of every editable object reachable from a returned object."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, (pd.DataFrame, pd.Series, np.ndarray)):
        yield path, x
    elif isinstance(x, (list, tuple)):
        for k, v in enumerate(x):
            yield from parts(v, "%s[%d]" % (path, k), seen)
        if isinstance(x, list):
            yield path, x
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from parts(v, "%s[%r]" % (path, k), seen)
        yield path, x
    elif type(x).__name__.endswith("Result"):
        for k in sorted(vars(x)):
            if not k.startswith("_") and k != "tri":
                yield from parts(getattr(x, k), "%s.%s" % (path, k), seen)
        for k in ("origin_dist", "residuals_detail"):
            if hasattr(type(x), k):
                yield from parts(getattr(x, k), "%s.%s" % (path, k), seen)


def overwrite(a):
    try:
        a[...] = -7 if a.dtype.kind in "iufO" else a[::-1].copy()
    except (ValueError, TypeError):                          # read-only
        pass


def edit(x, kinds):
    for kind in kinds:
        if isinstance(x, list):
            x.reverse()
            x.append(0.123)
        elif isinstance(x, dict):
            x.clear()
        elif isinstance(x, np.ndarray):
            overwrite(x)
        elif kind == "raw":
            for c in range(x.shape[1]) if x.ndim == 2 else [None]:
                overwrite((x if c is None else x.iloc[:, c]).to_numpy())
            overwrite(x.to_numpy())
        elif kind == "cells":
            for i in range(x.shape[0]):
                for c in range(x.shape[1]) if x.ndim == 2 else [None]:
                    at = i if c is None else (i, c)
                    old = x.iat[at]
                    x.iat[at] = old + 13 if isinstance(old, (int, float, np.integer, np.floating)) and old == old else x.iat[0 if c is None else (0, c)]
        elif kind == "labels":
            x.index = ["r%d" % i for i in range(x.shape[0])]
            x.index.name = "edited"
            if x.ndim == 2:
                x.columns = ["c%d" % i for i in range(x.shape[1])]
                x.columns.name = "edited"
        else:
            if x.shape[0]:
                x.drop(index=x.index[0], inplace=True)
            if x.ndim == 2:
                x["added"] = 1
                x.drop(columns=x.columns[0], inplace=True)


def run(case, obs):
    want = oracle(case)
    w = world(case)
    held = {n: call(n, w) for n in want} if case.get("warm", 1) else {}
    before = {n: ops.snap(held[n]) for n in held}
    x = call(case["op"], w)
    if case["k"] == "args":
        s = ops.snap(x)
        for a in ("sel_list", "sel_array", "sel_series", "q_list", "q_array", "data"):
            edit(getattr(w, a), ["raw", "cells"])
        obs.step()
        obs.state(case["op"], case["tri"])
        for n, b in [(case["op"], s)] + sorted(before.items(), key=str):
            got = ops.snap(x if n == case["op"] else held[n])
            obs.check(got == b, "editing the arguments after %s changed what %s returned" % (case["op"], n))
        obs.trace()
        return
    done = []
    for path, o in list(parts(x)):
        if not isinstance(o, (list, dict)) and o.size == 0:
            continue
        obs.state(case["tri"], case["op"], path)
        edit(o, case["edits"])
        done.append(path or "the result")
    what = "after %s of %s%s was edited" % (", ".join(done), case["op"], " (all calls made before)" if held else "")
    for n, b in before.items():
        obs.step()
        if not obs.check(ops.snap(held[n]) == b, "%s, what %s returned before is changed" % (what, n)):
            break
    for n, b in want.items():
        obs.step()
        if not obs.check(ops.snap(call(n, w)) == b, "%s, %s gives other values" % (what, n)):
            break
    obs.trace()
