"""T19: results do not depend on what was computed before."""
import gc
import itertools
import mk
import ops
import pristine
import space
from cmp import same

CORE = ["latest", "latest_by_devp", "maturity", "rlvi", "clvi", "a2a", "a2aind", "a2a_lvi", "a2a_avgs", "ranked_a2a", "a2a_assignment", "diagonal", "to_tbl",
        "to_incr", "incr.to_cum", "totri-oftri", "base", "base-list", "mack", "mack0-norm", "mack.get_quantiles", "mack.cy_effects_test", "boot", "boot-parametric",
        "boot.get_quantiles"]
SPECS = {"A": {"shape": [4, 4], "scheme": "year"}, "B": {"shape": [4, 4], "scheme": "year", "variant": 3}, "C": {"shape": [5, 5], "scheme": "month", "variant": 1},
         "R": {"shape": [3, 5], "scheme": "gap"}}
_fresh = {}


def _cum(delta):
    """A triangle whose cumulative amounts are those of A but for the given cells."""
    cells = {(i, j): float("%.9g" % v) for (i, j), v in space.runoff(4).items()}
    for (i, j), d in delta.items():
        cells[i, j] += d
        if (i, j + 1) in cells:
            cells[i, j + 1] -= d
    return {"recs": [[i, j, v] for (i, j), v in sorted(cells.items())], "scheme": "year"}


# Triangles that agree with A in much of what could be taken for its identity.
TWINS = {"cell %d,%d" % (i, j): _cum({(i, j): 16.0}) for i, j in space.grid(4, 4)}
TWINS.update({
    "same row, column and total sums": _cum({(0, 1): 16.0, (0, 2): -16.0, (1, 1): -16.0, (1, 2): 16.0}),
    "same column sums": _cum({(0, 0): 16.0, (1, 0): -16.0}),
    "same row sums": _cum({(0, 1): 16.0, (0, 2): -16.0}),
    "same link ratios": {"shape": [4, 4], "scheme": "year", "scale": 2.0},
    "other origins": {"shape": [4, 4], "scheme": "year", "shift": [1, 0]},
    "other periods": {"shape": [4, 4], "scheme": "year", "shift": [0, 1]},
    "one exclusion": {"shape": [4, 4], "scheme": "year", "excl": [[0, 0]]},
})
SPECS.update(TWINS)
TURNS = 20
SMALL = ["latest", "maturity", "a2a", "a2aind", "a2a_avgs", "to_incr", "base"]
RUNS = {"exclusions 0,1 1,0": {"shape": [4, 4], "scheme": "year", "excl": [[0, 1], [1, 0]]}, "exclusions 0,0 1,1": {"shape": [4, 4], "scheme": "year", "excl": [[0, 0], [1, 1]]}}
SPECS.update(RUNS)


def BOUNDS(tier):
    t = tier == "thorough"
    return {"one triangle": "every ordered pair of the %d public operations%s on new triangles of 4 periods; after every operation (exhibits included) all operations in listed and in reverse "
                            "order on triangles of 4 and 5 periods and a 3x5 rectangle" % (len(ops.TEXT), "; every ordered triple of %d of them" % len(CORE) if t else ""),
            "two triangles": "with the same labels and different amounts: every operation on the first, every operation on the second%s, all on both again" % (", every ordered pair" if t else ""),
            "twins": "every operation on A, then on a triangle that differs in one cumulative amount (each of the 10), in amounts with the same row sums, column sums "
                     "or both, in the currency unit, in the origins, the periods or the exclusions only, and back; and on triangles made in turn with others "
                     "that were used and deleted, some at the same address",
            "compared with": "the same operation as the first one on a new triangle; values, labels, types and names of everything public"}


def usable(spec, name):
    return spec != "R" or not ops.BY[name][2]


def cases(tier):
    t = tier == "thorough"
    for a in ops.TEXT:
        yield {"k": "pair", "spec": "A", "a": a}
    for spec in ("C", "R") if not t else ("A", "C", "R"):
        for a in ops.NAMES:
            if usable(spec, a):
                for rev in (0, 1) if t else ((len(a) % 2),):
                    yield {"k": "sweep", "spec": spec, "a": a, "rev": rev}
    for a in ops.TEXT if t else CORE:
        yield {"k": "two", "a": a}
    for a, b in [("A", x) for x in TWINS] + list(itertools.permutations(RUNS, 2)):
        for rev in (0, 1) if t else (len(b) % 2,):
            yield {"k": "twin", "a": a, "b": b, "rev": rev}
    for a, b in (("A", "B"), ("B", "A"), ("A", "same column sums"), ("R", "C")):
        yield {"k": "reuse", "a": a, "b": b}
    if t:
        for a in ops.TEXT:
            yield {"k": "cross", "a": a}
        for a, b in itertools.product(CORE, repeat=2):
            yield {"k": "triple", "spec": "A", "a": a, "b": b}


def world(spec):
    s = SPECS[spec]
    a, b = s.get("shift", (0, 0))
    w = ops.World([(o + a, d + b, v) for o, d, v in mk.recs_of({k: v for k, v in s.items() if k not in ("shift", "excl")})])
    for i, j in s.get("excl", ()):
        w.tri.a2aind = w.tri.index[i], w.tri.columns[j], 0
    return w


def prepare(specs):
    """The expected values: of every operation as the first use of the package in a process."""
    for spec in specs:
        for name in ops.TEXT:
            if (spec, name) not in _fresh and usable(spec, name):
                pristine.reset()
                _fresh[(spec, name)] = ops.snap(ops.outcome(name, world(spec)))
    pristine.reset()


def fresh(spec, name):
    return _fresh[(spec, name)]


def equal(x, y):
    return x == y or same(x, y, 1e4)


def check(obs, spec, name, w, hist):
    got = ops.snap(ops.outcome(name, w))
    want = fresh(spec, name)
    obs.step()
    obs.state(spec, tuple(hist), name)
    if not equal(got, want):
        obs.fail("%s after %s is %s, but as the first operation on a new triangle it is %s" % (name, " / ".join(hist), str(got)[:600], str(want)[:600]))
        return False
    return True


def run(case, obs):
    k, a = case["k"], case["a"]
    prepare({"pair": ["A"], "triple": ["A"], "sweep": [case.get("spec")], "two": ["A", "B"], "cross": ["A", "B"]}.get(k) or [a, case["b"]])
    if k == "twin":
        wa, wb = world(a), world(case["b"])
        names = ops.TEXT[::-1] if case["rev"] else ops.TEXT
        for name in names:
            ops.outcome(name, wa)
            if not check(obs, case["b"], name, wb, ["all up to here on both, %s on %s" % (name, a)]):
                return
        for name in names[::-1]:
            if not check(obs, a, name, wa, ["all on %s" % case["b"]]):
                return
        w2 = world(case["b"])
        for name in names:
            if not check(obs, case["b"], name, w2, ["all on %s and another %s" % (a, case["b"])]):
                return
        obs.trace()
    elif k == "reuse":
        hits = 0
        used = {}
        for turn in range(2 * TURNS):                        # until an address has been used by the other kind TURNS / 2 times
            spec, other = (a, case["b"]) if turn % 2 else (case["b"], a)
            w = world(spec)
            again = id(w.tri) in used.get(other, ())
            used.setdefault(spec, set()).add(id(w.tri))
            for name in ops.TEXT if again or turn < 4 else SMALL:
                if usable(spec, name) and not check(obs, spec, name, w, ["all on triangles deleted since%s" % (" (same address)" if again else "")]):
                    return
            del w
            gc.collect()
            obs.trace()
            hits += again
            if hits >= TURNS // 2:
                break
    elif k == "pair":
        for b in ops.TEXT:
            w = world("A")
            if not (check(obs, "A", a, w, ["creation"]) and check(obs, "A", b, w, [a])):
                return
            obs.trace()
    elif k == "triple":
        for c in CORE:
            w = world("A")
            ops.outcome(a, w)
            ops.outcome(case["b"], w)
            if not check(obs, "A", c, w, [a, case["b"]]):
                return
            obs.trace()
    elif k == "sweep":
        w = world(case["spec"])
        ops.outcome(a, w)
        hist = [a]
        for b in ops.TEXT[::-1] if case["rev"] else ops.TEXT:
            if usable(case["spec"], b):
                if not check(obs, case["spec"], b, w, hist):
                    return
                hist.append(b)
        obs.trace()
    elif k == "two":
        wa, wb = world("A"), world("B")
        ops.outcome(a, wa)
        hist = ["first " + a]
        for b in [a] + ops.TEXT:
            if not check(obs, "B", b, wb, hist):
                return
            hist.append("second " + b)
        for b in ops.TEXT[::-1]:
            if not check(obs, "A", b, wa, hist):
                return
            hist.append("first " + b)
        obs.trace()
    elif k == "cross":
        for b in ops.TEXT:
            wa, wb = world("A"), world("B")
            ops.outcome(a, wa)
            if not (check(obs, "B", b, wb, ["first " + a]) and check(obs, "A", a, wa, ["first " + a, "second " + b])):
                return
            obs.trace()
