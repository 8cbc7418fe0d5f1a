"""T26: an estimator object can be called repeatedly; every call gives what the triangle's method gives."""
import itertools
import numpy as np
import pandas as pd
import trikit
from trikit.estimators.base import BaseChainLadder
from trikit.estimators.mack import MackChainLadder
from trikit.estimators.bootstrap import BootstrapChainLadder
import mk
import ops
import space
from cmp import same

CLASS = {"base": BaseChainLadder, "mack": MackChainLadder, "boot": BootstrapChainLadder}
METHOD = {"base": "base_cl", "mack": "mack_cl", "boot": "boot_cl"}
PARAMS = {"base": ("sel", "tail"), "mack": ("alpha", "tail", "dist", "q", "two_sided"),
          "boot": ("sims", "q", "procdist", "parametric", "two_sided", "interpolation", "random_state")}
FACTORS = [2.0, 1.5, 1.25, 1.125, 1.0625, 1.03125, 1.015625]


def calls(kind, m, lab):
    """Argument sets of an estimator (None: rejected by it)."""
    f = FACTORS[:m - 1]
    if kind == "base":
        return {"d": {}, "s": {"sel": "simple-2", "tail": 1.05}, "m": {"sel": "all-medial", "tail": 0.98}, "l": {"sel": f, "tail": 1.1},
                "e": {"sel": pd.Series(f, index=lab[:-1]), "tail": 1.0}, "x": {"sel": "nope"}}
    if kind == "mack":
        return {"d": {}, "0": {"alpha": 0, "dist": "norm"}, "2": {"alpha": 2, "q": [.5, .99]}, "t": {"q": .9, "two_sided": True},
                "n": {"dist": "norm", "q": np.array([.9, .6])}, "x": {"dist": "nope"}}
    return {"d": {"sims": 3, "random_state": 1}, "p": {"sims": 3, "random_state": 1, "parametric": True}, "r": {"sims": 4, "random_state": 2, "q": [.5, .99]},
            "t": {"sims": 3, "random_state": 1, "q": .9, "two_sided": True}, "i": {"sims": 4, "random_state": 2, "interpolation": "lower", "q": [.3]},
            "x": {"sims": 3, "random_state": 1, "procdist": "nope"}}


# what happens to the triangle in between
TRIOPS = ("+excl", "+excl2", "+incl", "+views", "+method")
SHAPES = {"t4": {"shape": [4, 4], "scheme": "year"}, "t5": {"shape": [5, 5], "scheme": "month", "variant": 1},
          "t6": {"shape": [6, 6], "scheme": "gap", "variant": 2},
          # all factors below one; all link ratios of a period equal; growth only in one origin
          "fall": {"recs": [[i, j, [900.0, -80, -50.5, -20][j] * (1 + (3 * i + 5 * j) % 4)] for i in range(4) for j in range(4 - i)], "scheme": "one"},
          "flat": {"recs": [[i, j, [100.0, 50, 75, 25][j] * (1 + i)] for i in range(4) for j in range(4 - i)], "scheme": "wide"},
          "late": {"recs": [[i, j, [500.0, 0, 0, 0][j] + (40.0 * (j + i) if i == 1 and j else 0)] for i in range(4) for j in range(4 - i)], "scheme": "year"}}


SPECIAL = ("fall", "flat", "late")


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "words": "every word of at most %s calls on one estimator object out of 6 argument sets (one rejected) and %d operations on its triangle "
                 "(two exclusions, inclusion, reading every view, the triangle's own method)" % ("4 (boot_cl, larger triangles: 3)" if t else "2", len(TRIOPS)),
        "objects": "every word of 2 calls on two estimator objects of one triangle and one of another triangle",
        "arguments": "every argument set by keyword, by position and partly by position, on the object and on the triangle",
        "triangles": "run-off, %s periods; words of BaseChainLadder and MackChainLadder%s also on triangles with falling amounts, equal link ratios and "
                     "growth in one origin only" % ("4, 5 and 6" if t else "4 and 5", " (and, but for equal ratios, BootstrapChainLadder)" if t else ""),
    }


def cases(tier):
    t = tier == "thorough"
    for kind in CLASS:
        for tri in SHAPES if t else ("t4",) + (SPECIAL if kind != "boot" else ()):
            if tri == "flat" and kind == "boot":         # no residuals to draw from
                continue
            letters = list(calls(kind, 4, [1, 2, 3, 4])) + list(TRIOPS)
            depth = (4 if tri == "t4" and kind != "boot" else 3 if tri not in SPECIAL or kind != "boot" else 2) if t else 2
            for d in range(1, depth + 1):
                for first in itertools.product(letters, repeat=max(0, d - 2)):
                    for a in letters:
                        yield {"kind": kind, "k": "word", "tri": tri, "prefix": list(first) + ([a] if d > 1 else []), "letters": letters if d > 1 else [a]}
        for tri in SHAPES if t else ("t4", "t5"):
            if tri in SPECIAL:
                continue
            for a in calls(kind, 4, [1, 2, 3, 4]):
                if t or tri == "t4":
                    yield {"kind": kind, "k": "objects", "tri": tri, "a": a, "orders": [list(o) for o in itertools.permutations(range(3))] if t else [[0, 1, 2], [2, 1, 0]]}
                yield {"kind": kind, "k": "forms", "tri": tri, "a": a}


def triangle(name):
    return trikit.totri(mk.tabular(mk.recs_of(SHAPES[name])))


def exclude(tri, i, j, v):
    tri.a2aind
    tri.a2aind = (tri.index[i], tri.columns[j], v)


_EXPECT = {}


def snap(f, *args, **kw):
    try:
        return ops.snap(f(*args, **kw))
    except Exception as e:
        return "raised " + type(e).__name__


def expected(kind, tri, letter, excl):
    """The result of the triangle's method on a fresh triangle."""
    key = (kind, tri, letter, tuple(sorted(excl)))
    if key not in _EXPECT:
        t = triangle(tri)
        for i, j in sorted(excl):
            exclude(t, i, j, 0)
        _EXPECT[key] = snap(getattr(t, METHOD[kind]), **calls(kind, t.shape[1], list(t.columns))[letter])
        assert tri in SPECIAL or (letter == "x") == str(_EXPECT[key]).startswith("raised"), (key, _EXPECT[key])
    return _EXPECT[key]


def step(op, kind, tri, est, excl, obs):
    """Performs op; returns the result of a call on the estimator object, or None."""
    if op == "+excl":
        exclude(tri, 0, 1, 0)
        excl.add((0, 1))
    elif op == "+excl2":
        exclude(tri, 1, 0, 0)
        excl.add((1, 0))
    elif op == "+incl":
        exclude(tri, 0, 1, 1)
        excl.discard((0, 1))
    elif op == "+views":
        for n in ops.VIEWS:
            getattr(tri, n, None)
        tri.a2a_avgs()
    elif op == "+method":
        tri.base_cl()
        tri.mack_cl()
    else:
        return snap(est, **calls(kind, tri.shape[1], list(tri.columns))[op])
    return None


def run(case, obs):
    kind, name = case["kind"], case["tri"]
    if case["k"] == "word":
        for last in case["letters"]:
            word = case["prefix"] + [last]
            tri = triangle(name)
            est, excl = CLASS[kind](tri), set()
            for k, op in enumerate(word):
                got = step(op, kind, tri, est, excl, obs)
                obs.step()
                obs.state(kind, name, word[:k + 1])
                if got is not None:
                    want = expected(kind, name, op, excl)
                    if not obs.check(same(got, want, 1e4), lambda: "%s object: call %s after %s gives %s, expected %s" % (
                            kind, op, word[:k], str(got)[:400], str(want)[:400])):
                        return
            want = expected(kind, name, "d", excl)
            got = step("d", kind, tri, est, excl, obs)
            obs.check(same(got, want, 1e4), lambda: "%s object: default call after %s gives %s, expected %s" % (kind, word, str(got)[:400], str(want)[:400]))
            got = snap(getattr(tri, METHOD[kind]), **calls(kind, tri.shape[1], list(tri.columns))["d"])
            obs.check(same(got, want, 1e4), lambda: "%s of the triangle after %s on an estimator object gives %s, expected %s" % (
                METHOD[kind], word, str(got)[:400], str(want)[:400]))
            obs.trace()
    elif case["k"] == "objects":
        other = {"t4": "t5", "t5": "t4", "t6": "t4"}[name]
        for b in calls(kind, 4, [1, 2, 3, 4]):
            for order in case["orders"]:
                t1, t2 = triangle(name), triangle(other)
                objs = [(CLASS[kind](t1), t1, name), (CLASS[kind](t1), t1, name), (CLASS[kind](t2), t2, other)]
                exclude(t2, 0, 1, 0)
                for k in order + order:
                    est, t, nm = objs[k]
                    letter = case["a"] if k != 1 else b
                    got = step(letter, kind, t, est, set(), obs)
                    want = expected(kind, nm, letter, {(0, 1)} if k == 2 else set())
                    obs.step()
                    obs.state(kind, name, case["a"], b, order, k)
                    if not obs.check(same(got, want, 1e4), lambda: "%s object %d of order %s: call %s gives %s, expected %s" % (
                            kind, k, order, letter, str(got)[:400], str(want)[:400])):
                        return
                obs.trace()
    else:
        tri = triangle(name)
        kw = calls(kind, tri.shape[1], list(tri.columns))[case["a"]]
        want = expected(kind, name, case["a"], set())
        used = [p for p in PARAMS[kind] if p in kw]
        # the documented defaults, for positional arguments before the ones given
        default = {"sel": "all-weighted", "tail": 1.0, "alpha": 1, "dist": "lognorm", "q": [.75, .95], "two_sided": False, "sims": 1000,
                   "procdist": "gamma", "parametric": False, "interpolation": "linear", "random_state": None}
        for target in (CLASS[kind](tri), getattr(tri, METHOD[kind]), CLASS[kind](tri).__call__):
            for npos in range(len(PARAMS[kind]) + 1):
                pos = [kw.get(p, default[p]) for p in PARAMS[kind][:npos]]
                rest = {p: kw[p] for p in used if p not in PARAMS[kind][:npos]}
                for full in (0, 1):
                    named = dict(rest) if not full else {p: kw.get(p, default[p]) for p in PARAMS[kind][npos:]}
                    got = snap(target, *pos, **named)
                    obs.step()
                    obs.state(kind, name, case["a"], npos, full)
                    if not obs.check(same(got, want, 1e4), lambda: "%s with %d arguments by position and %s by name gives %s, expected %s" % (
                            METHOD[kind], npos, sorted(named), str(got)[:400], str(want)[:400])):
                        return
        obs.trace()
