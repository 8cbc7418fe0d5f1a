"""T04: computations never modify their inputs or earlier results."""
import itertools
import numpy as np
import pandas as pd
import trikit
import mk
import ops
import space


def BOUNDS(tier):
    return {
        "histories": "every public operation (%d, exhibits included) run forwards, backwards and in %s rotations on each triangle, every "
                     "object handed in or out so far compared after every step: every ordered pair of operations" % (
                         len(ops.NAMES), "all" if tier == "thorough" else "3"),
        "first operations": "every operation as the first one on a new triangle of which every view (%d) is held" % len(ops.VIEWS),
        "triangles": "run-off 4..6, a rectangle, holes, negative increments, with and without exclusions",
        "arguments": "totri on 8 tabular forms x 6 orders x nulls/duplicates/negatives x formats x types; 7 triangle-shaped forms; "
                     "every container and dtype of sel and q for every estimator",
    }


TRIS = {
    "t4": {"shape": [4, 4], "scheme": "year"}, "t5": {"shape": [5, 5], "scheme": "month"},
    "t6": {"shape": [6, 6], "scheme": "gap", "variant": 2}, "rect": {"shape": [3, 5], "scheme": "wide"},
    "hole": {"recs": [[i, j, None if (i, j) == (1, 1) else v] for (i, j), v in sorted(space.runoff(5).items())], "scheme": "one"},
    "neg": {"recs": [[i, j, -v if (i, j) in ((0, 2), (1, 3)) else v] for (i, j), v in sorted(space.runoff(5).items())], "scheme": "year"},
}


def cases(tier):
    thorough = tier == "thorough"
    n = len(ops.NAMES)
    for name in TRIS if thorough else ("t5", "rect", "neg"):
        for excl in (0, 1):
            for rev in (0, 1):
                for rot in range(0, n, 1 if thorough and name == "t5" else 20):
                    if not thorough and (excl or name != "t5") and rot:
                        continue
                    yield {"k": "hist", "tri": name, "excl": excl, "rev": rev, "rot": rot}
    for name in TRIS if thorough else ("t4", "rect"):
        for a in ops.TEXT:
            if not (name == "rect" and ops.BY[a][2]):
                yield {"k": "first", "tri": name, "a": a}
    for form in ("plain", "extra", "index", "strindex", "small", "colorder"):
        for order in space.ORDERS:
            yield {"k": "totri", "form": form, "order": order}
    for form in ("plain", "named", "colname", "both", "strcols", "reversed", "emptyrow"):
        yield {"k": "shaped", "form": form}
    for k in ("sel", "q"):
        for name in ("t4", "t6", "neg"):
            yield {"k": k, "tri": name}


def run(case, obs):
    if case["k"] == "hist":
        hist(case, obs)
    elif case["k"] == "first":
        first(case, obs)
    elif case["k"] == "totri":
        base = [[i, j, v] for (i, j), v in sorted(space.runoff(4).items())]
        variants = [base, [[0, 0, -5.0]] + base[1:], base + [[1, 1, 7.5], [0, 3, -2.0]],
                    [r if r[:2] != [1, 2] else [1, 2, None] for r in base], [[0, 0, None]] + base[1:], base[1:]]
        for rs in variants:
            recs = mk.recs_of({"recs": rs, "order": case["order"], "scheme": "year"})
            for tt, fmt in itertools.product(("incr", "cum"), repeat=2):
                df = mk.tabular(recs, case["form"])
                before = ops.snap(df)
                tri = trikit.totri(df, tri_type=tt, data_format=fmt)
                tri.latest, tri.to_tbl()
                obs.step()
                obs.state(recs, tt, fmt)
                obs.check(ops.snap(df) == before, "totri(%s, %s) changed its data %s" % (tt, fmt, recs[:6]))
                # the triangle does not live in the caller's data either
                cells = ops.snap(tri)
                df.iloc[:, :] = df.iloc[::-1, :].to_numpy()
                obs.check(ops.snap(tri) == cells, "triangle changes with the data it was built from")
    elif case["k"] == "shaped":
        for rs in ([[i, j, v] for (i, j), v in sorted(space.runoff(4).items())],
                   [[i, j, None if (i, j) == (0, 2) else v] for (i, j), v in sorted(space.runoff(4).items())]):
            recs = mk.recs_of({"recs": rs, "scheme": "month"})
            for tt, fmt in itertools.product(("incr", "cum"), repeat=2):
                df = mk.shaped(recs if fmt == "incr" else mk.cum_records(recs), case["form"])
                before = ops.snap(df)
                tri = trikit.totri(df, tri_type=tt, data_format=fmt, data_shape="triangle")
                obs.step()
                obs.state(rs, tt, fmt, case["form"])
                obs.check(ops.snap(df) == before, "totri(%s, %s, triangle) changed its data" % (tt, fmt))
                cells = ops.snap(tri)
                df.iloc[:, :] = 5.0
                obs.check(ops.snap(tri) == cells, "triangle changes with the table it was built from")
    elif case["k"] == "sel":
        tri = trikit.totri(mk.tabular(mk.recs_of(TRIS[case["tri"]])))
        lab = list(tri.columns)[:-1]
        m = len(lab)
        vals = [2.0, 1.5, 1.25, 1.125, 1.0625][:m]
        sels = [vals, tuple(vals), np.array(vals), np.array([2] * m), pd.Series(vals, index=lab), pd.Series([2] * m, index=lab),
                pd.Series(vals, index=lab, name="x"), tri.a2a_avgs().loc["all-simple"], vals + [1.0], pd.Series(vals[:-1], index=lab[:-1])]
        for s in sels:
            for tail in (1.0, 1.1, 0.9):
                before, tb = ops.snap(s), ops.snap(tri)
                try:
                    r = tri.base_cl(sel=s, tail=tail)
                except Exception:
                    r = None
                obs.step()
                obs.state(ops.snap(s), tail)
                obs.check(ops.snap(s) == before, "base_cl changed sel %s to %s" % (before, ops.snap(s)))
                obs.check(ops.snap(tri) == tb, "base_cl changed the triangle")
                if r is not None and not isinstance(s, tuple):
                    rb = ops.snap(r.ldfs), ops.snap(r.summary)
                    try:
                        s[0 if isinstance(s, (list, np.ndarray)) else lab[0]] = 9.0
                    except (ValueError, KeyError):
                        pass
                    obs.check((ops.snap(r.ldfs), ops.snap(r.summary)) == rb, "a result changes with the caller's sel")
                    s[0 if isinstance(s, (list, np.ndarray)) else lab[0]] = 2
    elif case["k"] == "q":
        tri = trikit.totri(mk.tabular(mk.recs_of(TRIS[case["tri"]])))
        mcl, bcl = tri.mack_cl(), tri.boot_cl(sims=3, random_state=1)
        qs = [[.9, .5], (.9, .5, .5), np.array([.75, .25, .75]), [1, 0], np.array([0, 1]), .5, [.05], np.array([[.9], [.5]]).ravel(), [1.5, .5]]
        calls = [lambda q: tri.mack_cl(q=q), lambda q: tri.mack_cl(q=q, two_sided=True, dist="norm"),
                 lambda q: tri.boot_cl(sims=2, q=q, random_state=1), lambda q: tri.boot_cl(sims=2, q=q, two_sided=True, random_state=1),
                 lambda q: mcl.get_quantiles(q), lambda q: bcl.get_quantiles(q), lambda q: bcl.get_quantiles(q, lb=100., interpolation="nearest")]
        held = [(n, o, ops.snap(o)) for n, o in (("tri", tri), ("mack", mcl), ("boot", bcl))]
        for q in qs:
            for k, f in enumerate(calls):
                before = ops.snap(q)
                try:
                    f(q)
                except ValueError:
                    pass
                obs.step()
                obs.state(k, before)
                obs.check(ops.snap(q) == before, "call %d changed q from %s to %s" % (k, before, ops.snap(q)))
                for n, o, s in held:
                    obs.check(ops.snap(o) == s, "call %d with q=%s changed %s" % (k, q, n))
    obs.trace()


def first(case, obs):
    """Everything readable from a new triangle is held while one operation runs as the first one, then all others."""
    rect = case["tri"] == "rect"
    reads = [n for n in ops.VIEWS if not (rect and ops.BY[n][2])]
    rest = [n for n in ops.TEXT if not (rect and ops.BY[n][2]) and n != case["a"]]
    w = ops.World(mk.recs_of(TRIS[case["tri"]]))
    held = [("argument " + k, getattr(w, k)) for k in ("data", "tri", "sel_list", "sel_array", "sel_series", "q_list", "q_array")]
    held += [(n, ops.outcome(n, w)) for n in reads]
    held = [(n, o, ops.snap(o)) for n, o in held]
    for name in [case["a"]] + (rest if case["a"] in ("mack", "boot", "base", "to_incr") else []):
        r = ops.outcome(name, w)
        obs.step()
        obs.state(case["tri"], case["a"], name)
        for n, o, s in held:
            now = ops.snap(o)
            if now != s:
                return obs.fail("%s as the first operation changed %s read before: %s -> %s" % (name, n, str(s)[:300], str(now)[:300]))
        held.append(("result of " + name, r, ops.snap(r)))


def hist(case, obs):
    rect = case["tri"] == "rect"
    names = [n for n in ops.NAMES if not (rect and ops.BY[n][2])]
    names = names[case["rot"] % len(names):] + names[:case["rot"] % len(names)]
    if case["rev"]:
        names = names[::-1]
    w = ops.World(mk.recs_of(TRIS[case["tri"]]))
    if case["excl"]:
        w.tri.a2aind
        w.tri.a2aind = (w.tri.index[0], w.tri.columns[1], 0)
        if w.tri.shape[0] > 3:
            w.tri.a2aind = (w.tri.index[1], w.tri.columns[0], 0)
    held = [("argument " + k, getattr(w, k)) for k in ("data", "tri", "sel_list", "sel_array", "sel_series", "q_list", "q_array")]
    held.append(("a2aind", w.tri.a2aind))
    for k in ("base", "incr") if rect else ("base", "incr", "mack", "boot"):
        held.append((k + " result", w.get(k)))
    held = [(n, o, ops.snap(o)) for n, o in held]
    prev = []
    for name in names:
        r = ops.outcome(name, w)
        obs.step()
        for n, o, s in held:
            now = ops.snap(o)
            if now != s:
                obs.fail("%s changed %s (after %s): %s -> %s" % (name, n, prev[-3:], str(s)[:300], str(now)[:300]))
                return
        if r is not None:
            held.append(("result of " + name, r, ops.snap(r)))
        prev.append(name)
        obs.state(case["tri"], case["excl"], case["rev"], case["rot"], name)
