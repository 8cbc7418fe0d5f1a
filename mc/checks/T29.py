"""T29: calls that overlap in time, on one triangle or one estimator, give what each gives alone."""
import trikit
import mk
import ops
import sched
from cmp import same
from checks.T27 import World, TRIS, PREPS, FUN, expected, usable, call, exclude

VIEWS = ("clvi", "rlvi", "triind", "maturity", "latest", "latest_by_origin", "latest_by_devp", "devp", "origins", "nbr_cells",
         "a2a", "a2aind", "a2a_lvi", "a2a_assignment")
OTHERS = ("ranked_a2a", "a2a_avgs", "to_incr", "to_tbl", "base", "mack", "boot", "obj.base", "obj.mack", "obj.boot")
RESULTS = ("boot.residuals_detail", "boot.origin_dist", "boot.get_quantiles", "mack.get_quantiles", "mack.devp_corr_test", "mack.cy_effects_test")
SLOW = ("base", "mack", "boot", "obj.base", "obj.mack", "obj.boot")


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "one preemption": "thread A preempted at every executed source line of the package (one for each distinct position and state), thread B runs "
                          "a whole call, A goes on: %s" % ("every ordered pair of %d calls" % len(VIEWS + OTHERS + RESULTS) if t else
                                                           "every call A x (itself, all cached views in both orders, mack_cl); for A that is no view one "
                                                           "preemption for each distinct function stack and state, by itself and by the views"),
        "two preemptions": "A to step k, B to step j, A to its end, B to its end, for every (k, j) with distinct function stack%s and state: %s" % (
            " and lines" if t else "", "every ordered pair of %d cached views" % len(VIEWS) if t else "each of %d cached views against itself and its neighbour" % len(VIEWS)),
        "objects": "one run-off triangle%s, its results and its estimator objects, shared by both threads" % (" of 4 and of 5 periods, a rectangle" if t else " of 4 periods"),
        "afterwards": "every view and point estimate compared with those of an untouched triangle",
    }


def allviews(w):
    return [ops.snap(call(n, w)) for n in VIEWS]


def allviews_rev(w):
    return [ops.snap(call(n, w)) for n in VIEWS[::-1]][::-1]


def cases(tier):
    t = tier == "thorough"
    for tri in ("t4", "rect", "t5") if t else ("t4",):
        ok = [n for n in VIEWS + OTHERS + RESULTS if n in usable(tri)]
        for a in ok:
            if t:
                bs = ok + ["*views", "*views-rev"]
            else:
                bs = [a, "*views", "*views-rev"] + (["mack"] if a in VIEWS else [])
                if a in SLOW + RESULTS:
                    bs = [a, "*views-rev"]
            for b in dict.fromkeys(bs):
                parts = (8 if t else 2) if a in SLOW else 1
                for part in range(parts):
                    yield {"tri": tri, "a": a, "b": b, "pre": 1, "part": [part, parts], "grain": "line" if t or a in VIEWS else "function"}
        views = [n for n in VIEWS if n in usable(tri)]
        for k, a in enumerate(views):
            for b in views if t else (a, views[(k + 1) % len(views)]):
                yield {"tri": tri, "a": a, "b": b, "pre": 2, "part": [0, 1], "grain": "line" if t else "function"}


def fun(name):
    if name == "*views":
        return allviews
    if name == "*views-rev":
        return allviews_rev
    return lambda w: ops.snap(FUN[name](w))


def want(case, name):
    c = {"tri": case["tri"], "prep": "none"}
    if name.startswith("*"):
        return [expected(c, n) for n in VIEWS]
    return expected(c, name)


def world(case):
    w = World(mk.recs_of(TRIS[case["tri"]]))
    for n in (case["a"], case["b"]):
        k = n.split(".")[0]
        if k in ("boot", "mack", "base") and "." in n:
            w.get(k)
    return w


_SWEPT = set()


def run(case, obs):
    a, b = case["a"], case["b"]
    ks, n, _ = sched.points(lambda: world(case), fun(a), case["grain"])
    ks = ks[case["part"][0]::case["part"][1]]
    js = [(None, None)] if case["pre"] == 1 else sched.points(lambda: world(case), fun(b), case["grain"])[0]
    wa, wb = want(case, a), want(case, b)
    sweep = VIEWS + ("base", "obj.base") + (("mack", "obj.mack") if case["tri"] != "rect" else ())
    for m in sweep:
        want(case, m)
    for k, _ in ks:
        for j, _ in js:
            w = world(case)
            (sa, ra), (sb, rb) = sched.Schedule(lambda: fun(a)(w), lambda: fun(b)(w), k, j).run()
            obs.step()
            obs.state(case["tri"], a, b, k, j)
            where = "%s preempted at step %d of %d by %s%s" % (a, k, n, b, "" if j is None else " (up to its step %d)" % j)
            if not obs.check(sa == "ok" and same(ra, wa, 1e4), lambda: "%s: %s gives %s, expected %s" % (where, a, str(ra)[:300], str(wa)[:300])):
                return
            if not obs.check(sb == "ok" and same(rb, wb, 1e4), lambda: "%s: %s gives %s, expected %s" % (where, b, str(rb)[:300], str(wb)[:300])):
                return
            left = (case["tri"], sched.state_of(vars(w)))
            if left not in _SWEPT:
                _SWEPT.add(left)
                for m in sweep:
                    got = ops.snap(call(m, w))
                    obs.step()
                    if not obs.check(same(got, want(case, m), 1e4), lambda: "afterwards (%s) %s gives %s, expected %s" % (
                            where, m, str(got)[:300], str(want(case, m))[:300])):
                        return
    obs.trace()
