"""T27: an interrupted call leaves no trace, at whatever point it is interrupted."""
import numpy as np
import pandas as pd
import trikit
from trikit.estimators.base import BaseChainLadder
from trikit.estimators.mack import MackChainLadder
from trikit.estimators.bootstrap import BootstrapChainLadder
import mk
import ops
import pristine
import sched
import space
from cmp import same


class Interrupt(KeyboardInterrupt):
    pass


class Failure(MemoryError):
    pass


TRIS = {
    "t4": {"shape": [4, 4], "scheme": "year"},
    "t5": {"shape": [5, 5], "scheme": "month"},
    "rect": {"shape": [3, 4], "scheme": "wide"},
    "neg": {"recs": [[i, j, -v if (i, j) in ((0, 2), (1, 3)) else v] for (i, j), v in sorted(space.runoff(5).items())], "scheme": "gap"},
    "hole": {"recs": [[i, j, None if (i, j) == (1, 1) else v] for (i, j), v in sorted(space.runoff(5).items())], "scheme": "one"},
}
PREPS = {
    "none": lambda w: None,
    "views": lambda w: [ops.BY[n][1](w) for n in ("clvi", "latest", "a2a")],
    "excluded": lambda w: exclude(w, 0, 1),
}


def exclude(w, i, j):
    w.tri.a2aind
    w.tri.a2aind = (w.tri.index[i], w.tri.columns[j], 0)


class World(ops.World):
    """The objects a caller holds, estimator objects included."""
    def __init__(self, recs):
        pristine.reset()           # class and module level data as after import
        super().__init__(recs)
        self.e_base, self.e_mack, self.e_boot = BaseChainLadder(self.tri), MackChainLadder(self.tri), BootstrapChainLadder(self.tri)


ESTIMATORS = [
    ("obj.base", lambda w: w.e_base(tail=1.05), 0),
    ("obj.mack", lambda w: w.e_mack(q=w.q_list), 1),
    ("obj.mack2", lambda w: w.e_mack(alpha=2, dist="norm"), 1),
    ("obj.boot", lambda w: w.e_boot(sims=3, random_state=5), 1),
]
ALL = [(n, ops.BY[n][1], ops.BY[n][2]) for n in ops.TEXT] + ESTIMATORS
FUN = {n: f for n, f, _ in ALL}
# what is compared after an interrupted call: everything that is not itself a longer combination of these
AFTER = [n for n, _, _ in ALL if n not in ("mack0-norm", "base-medial", "mack2", "boot-parametric", "totri", "totri-incr",
                                            "totri-fromcum", "totri-table", "totri-oftri", "base-list", "base-array", "base-series")]


HEAVY = ("incr.to_cum", "a2a_avgs", "to_incr", "diagonal", "diagonal-1", "incr.latest", "incr.to_tbl", "str")
LIGHT = [n for n in ops.VIEWS if n not in HEAVY] + ["base", "mack"]


def usable(tri):
    return [n for n, _, needs in ALL if not (tri == "rect" and needs)]


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "crash points": "an interrupt raised at every executed source line of the package in every one of %d calls (one for each distinct "
                        "(stack of positions, state of all objects))%s" % (len(ALL), "; a memory failure likewise" if t else ""),
        "triangles": "a run-off triangle%s and a rectangle" % (" of 4 and of 5 periods, negative increments, a hole" if t else " of 4 periods"),
        "before": "new triangle, some views read, one ratio excluded",
        "after": "the interrupted call is repeated after each interrupt; in every distinct state left behind by an interrupt %d further calls are "
                 "compared with those on an untouched triangle; assignments to a2aind are either made or not" % len(AFTER),
    }


def cases(tier):
    t = tier == "thorough"
    for tri in TRIS if t else ("t4", "rect"):
        for prep in PREPS:
            if tri == "rect" and prep != "none" and not t:
                continue
            for n in usable(tri):
                if not t and prep != "none" and n not in LIGHT:
                    continue
                for exc in ("int", "mem") if t else ("int",):
                    yield {"tri": tri, "prep": prep, "op": n, "exc": exc, "grain": "line" if t else "function"}
        for prep in PREPS:
            for value in (0, 1):
                yield {"tri": tri, "prep": prep, "set": value}
        for n in usable(tri):
            if n in ops.VIEWS and tri in ("t4", "rect") and (t or not (n in HEAVY or tri == "rect")):
                yield {"tri": tri, "prep": "none", "op": n, "exc": "int", "grain": "opcode"}


def world(case):
    w = World(mk.recs_of(TRIS[case["tri"]]))
    PREPS[case["prep"]](w)
    # the results other calls refer to are there beforehand
    for k in ("base", "incr") + (() if case["tri"] == "rect" else ("mack", "boot")):
        if case.get("op", "").startswith(k + "."):
            w.get(k)
    return w


_EXPECT = {}
_SWEPT = set()             # states left behind that were examined already (by this process)


def expected(case, name):
    key = (case["tri"], "excluded" if case["prep"] == "excluded" else "", name)
    if key not in _EXPECT:
        w = World(mk.recs_of(TRIS[case["tri"]]))
        if case["prep"] == "excluded":
            exclude(w, 0, 1)
        np.random.seed(17)
        _EXPECT[key] = ops.snap(FUN[name](w))
    return _EXPECT[key]


def call(name, w):
    np.random.seed(17)
    return FUN[name](w)


def run(case, obs):
    if "set" in case:
        return assign(case, obs)
    for m in usable(case["tri"]):
        expected(case, m)
    name = case["op"]
    pts, n, r = sched.points(lambda: world(case), lambda w: call(name, w), case["grain"])
    want = expected(case, name)
    obs.check(same(ops.snap(r), want, 1e4), "%s differs when run step by step" % name)
    obs.step(n)
    w = world(case)
    clean = {sched.state_of(vars(w))}
    call(name, w)
    clean.add(sched.state_of(vars(w)))
    seen = set()
    for k, st in pts:
        w = world(case)
        exc = Interrupt() if case["exc"] == "int" else Failure()
        hit, raised, r = sched.interrupted(w, lambda u: call(name, u), k, exc, case["grain"] == "opcode")
        obs.step()
        obs.state(case["tri"], case["prep"], name, k)
        if not hit:
            obs.fail("%s takes different steps when repeated on an equal triangle" % name)
            return
        where = "after %s interrupted at step %d of %d" % (name, k, n)
        if not raised and not obs.check(same(ops.snap(r), want, 1e4), "interrupt of %s at step %d gave a wrong result" % (name, k)):
            return
        left = sched.state_of(vars(w))
        new = left not in seen and left not in clean
        seen.add(left)
        if not new:
            continue
        got = ops.snap(call(name, w))
        if not obs.check(same(got, want, 1e4), "%s: %s again gives %s, expected %s" % (where, name, str(got)[:400], str(want)[:400])):
            return
        if (case["tri"], left) in _SWEPT:
            continue
        _SWEPT.add((case["tri"], left))
        # the other order: everything else before the interrupted call is repeated
        for rev in (0, 1):
            w = world(case)
            sched.interrupted(w, lambda u: call(name, u), k, exc, case["grain"] == "opcode")
            todo = [m for m in AFTER if m in usable(case["tri"])]
            for m in todo[::-1] if rev else todo:
                got = ops.snap(call(m, w))
                obs.step()
                if not obs.check(same(got, expected(case, m), 1e4), "%s: %s gives %s, expected %s" % (
                        where, m, str(got)[:400], str(expected(case, m))[:400])):
                    return
    obs.trace()


def assign(case, obs):
    """An interrupted assignment to a2aind is either made or not made."""
    def op(w):
        w.tri.a2aind = (w.tri.index[0], w.tri.columns[1], case["set"])

    def make():
        w = world(case)
        w.tri.a2aind
        return w
    names = [m for m in ("a2aind", "a2a", "a2a_avgs", "base", "mack", "boot", "latest", "triind", "obj.mack") if m in usable(case["tri"])]
    ref = []
    for done in (0, 1):
        w = make()
        if done:
            op(w)
        ref.append({m: ops.snap(call(m, w)) for m in names})
    pts, n, _ = sched.points(make, op)
    for k, st in pts:
        w = make()
        sched.interrupted(w, op, k, Interrupt())
        got = {m: ops.snap(call(m, w)) for m in names}
        obs.step()
        obs.state(case["tri"], case["prep"], case["set"], k)
        obs.check(any(all(same(got[m], r[m], 1e4) for m in names) for r in ref), "an interrupted exclusion is half made: %s" % str(got["a2aind"])[:300])
        op(w)
        got = {m: ops.snap(call(m, w)) for m in names}
        obs.check(all(same(got[m], ref[1][m], 1e4) for m in names), "an exclusion repeated after an interrupt is not made")
    obs.trace()
