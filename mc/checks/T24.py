"""T24: invalid arguments are rejected and leave no trace, valid spellings are accepted."""
import itertools
import os
import numpy as np
import pandas as pd
import trikit
import mk
import ops
import space

SCRATCH = os.environ.get("TRIKIT_MC_SCRATCH", "/tmp")
FMT = {"incr": ["incr", "INCR", "Incr", "i", "I", "incremental", " incr", "incr "], "cum": ["cum", "CUM", "Cum", "c", "C", "cumulative", " Cum "]}
TYP = {"incr": ["incr", "INCR", "Incr", "i", "I", "incremental"], "cum": ["cum", "CUM", "Cum", "c", "C", "cumulative"]}


def BOUNDS(tier):
    t = tier == "thorough"
    return {"invalid calls": "%d argument errors of totri, diagonal, base_cl, mack_cl, boot_cl, get_quantiles, load and load_lrdb" % len(INVALID),
            "histories": "every invalid call alone, on a fresh and on a used triangle, and every sequence (invalid call, valid operation)%s" % (", (invalid, invalid, valid)" if t else " and one in 13 of (invalid, invalid, valid)"),
            "triangles": "3 and 4 periods" + (" and raa" if t else ""),
            "spellings": "%d of data_format x %d of tri_type x both data shapes; abbreviations of load's tri_type, loss_type and display" % (
                sum(map(len, FMT.values())), sum(map(len, TYP.values())))}


def lrdb(w):
    if not hasattr(w, "lrdb"):
        path = os.path.join(SCRATCH, "lrdb-%d.csv" % os.getpid())
        with open(path, "w") as f:
            f.write("loss_key,grcode,grname,origin,dev,incrd_loss,paid_loss,train_ind\n")
            for k, g, nm in (("comauto", 1, "A"), ("comauto", 2, "B"), ("wkcomp", 3, "C")):
                for i, j in space.grid(3, 3, "full"):
                    f.write("%s,%d,%s,%d,%d,%d,%d,%d\n" % (k, g, nm, 1990 + i, 1 + j, 100 * g + 10 * i + j + 1, 50 * g + 9 * i + 2 * j + 1, int(i + j < 3)))
        w.lrdb = {"lrdb": path}
    return w.lrdb


def table(w):
    return pd.DataFrame(w.tri)


BADQ = {"above": 1.5, "below": -.1, "list": [.5, 1.01], "neg": [-.01, .5], "tuple": (.2, 2), "array": np.array([.5, 95.0]), "percent": 95, "both": [-.5, 1.5]}
INVALID = {
    "totri-list": lambda w: trikit.totri([[1, 1, 1.0]]),
    "totri-none": lambda w: trikit.totri(None),
    "totri-series": lambda w: trikit.totri(w.data["value"]),
    "totri-dict": lambda w: trikit.totri({"origin": [1], "dev": [1], "value": [1.0]}),
    "totri-array": lambda w: trikit.totri(w.data.values),
    "totri-series-incr": lambda w: trikit.totri(w.data["value"], tri_type="incr"),
    "totri-noorigin": lambda w: trikit.totri(w.data.drop(columns="origin")),
    "totri-nodev": lambda w: trikit.totri(w.data.drop(columns="dev")),
    "totri-novalue": lambda w: trikit.totri(w.data.drop(columns="value")),
    "totri-noorigin-incr": lambda w: trikit.totri(w.data.drop(columns="origin"), tri_type="incr"),
    "totri-nodev-cum": lambda w: trikit.totri(w.data.drop(columns="dev"), data_format="cum"),
    "totri-novalue-incr": lambda w: trikit.totri(w.data.drop(columns="value"), tri_type="incr", data_format="cum"),
    "totri-origin": lambda w: trikit.totri(w.data, origin="ay"),
    "totri-dev": lambda w: trikit.totri(w.data, dev="age"),
    "totri-value": lambda w: trikit.totri(w.data, value="paid"),
    "totri-case": lambda w: trikit.totri(w.data, value="Value"),
    "totri-origin-incr": lambda w: trikit.totri(w.data, origin="ay", tri_type="incr"),
    "totri-dev-incr": lambda w: trikit.totri(w.data, dev="age", tri_type="incr"),
    "totri-value-incr": lambda w: trikit.totri(w.data, value="paid", tri_type="incr"),
    "totri-empty-type": lambda w: trikit.totri(w.data, tri_type=""),
    "totri-type": lambda w: trikit.totri(w.data, tri_type="triangle"),
    "totri-shape": lambda w: trikit.totri(w.data, data_shape="square"),
    "totri-shape-empty": lambda w: trikit.totri(w.data, data_shape=""),
    "totri-format": lambda w: trikit.totri(w.data, data_format="paid"),
    "totri-format-empty": lambda w: trikit.totri(w.data, data_format=""),
    "totri-format-tbl": lambda w: trikit.totri(table(w), data_shape="triangle", data_format="paid"),
    "totri-format-tbl-empty": lambda w: trikit.totri(table(w), data_shape="triangle", data_format=" "),
    "totri-list-tbl": lambda w: trikit.totri([[1.0, 2.0]], data_shape="triangle"),
    "diagonal-beyond": lambda w: w.tri.diagonal(-w.tri.shape[1]),
    "diagonal-far": lambda w: w.tri.diagonal(-w.tri.shape[1] - 5),
    "diagonal-over": lambda w: w.tri.diagonal(w.tri.shape[1]),
    "sel-unknown": lambda w: w.tri.base_cl("latest"),
    "sel-case": lambda w: w.tri.base_cl("ALL-WEIGHTED"),
    "sel-empty": lambda w: w.tri.base_cl(""),
    "sel-window": lambda w: w.tri.base_cl("simple-%d" % (w.tri.shape[0] + 3)),
    "sel-zero": lambda w: w.tri.base_cl("simple-0"),
    "sel-nokind": lambda w: w.tri.base_cl("all-median"),
    "sel-short": lambda w: w.tri.base_cl([1.5] * (w.tri.shape[1] - 2)),
    "sel-long": lambda w: w.tri.base_cl([1.5] * w.tri.shape[1]),
    "sel-longer": lambda w: w.tri.base_cl((1.5,) * (w.tri.shape[1] + 1)),
    "sel-none": lambda w: w.tri.base_cl([]),
    "sel-array": lambda w: w.tri.base_cl(np.ones(w.tri.shape[1])),
    "sel-array-short": lambda w: w.tri.base_cl(np.ones(w.tri.shape[1] - 2)),
    "sel-series": lambda w: w.tri.base_cl(pd.Series(1.5, index=w.tri.columns)),
    "sel-series-short": lambda w: w.tri.base_cl(pd.Series(1.5, index=w.tri.columns[:-2])),
    "sel-text": lambda w: w.tri.base_cl(["a"] * (w.tri.shape[1] - 1)),
    "boot-procdist": lambda w: w.tri.boot_cl(sims=2, procdist="poisson", random_state=1),
    "boot-procdist-empty": lambda w: w.tri.boot_cl(sims=2, procdist="", random_state=1),
    "boot-interpolation": lambda w: w.tri.boot_cl(sims=2, interpolation="cubic", random_state=1),
    "load-name": lambda w: trikit.load("nosuch"),
    "load-case": lambda w: trikit.load("RAA"),
    "load-empty": lambda w: trikit.load(""),
    "load-type": lambda w: trikit.load("raa", tri_type="triangle"),
    "load-type-empty": lambda w: trikit.load("raa", tri_type=""),
    "lrdb-loss": lambda w: trikit.load_lrdb(loss_type="reported", lob="comauto", grcode=1, dataref=lrdb(w)),
    "lrdb-loss-empty": lambda w: trikit.load_lrdb(loss_type="", lob="comauto", grcode=1, dataref=lrdb(w)),
    "lrdb-lob": lambda w: trikit.load_lrdb(lob="auto", grcode=1, dataref=lrdb(w)),
    "lrdb-grcode": lambda w: trikit.load_lrdb(lob="comauto", grcode=7, dataref=lrdb(w)),
    "lrdb-grcode-lob": lambda w: trikit.load_lrdb(lob="comauto", grcode=3, dataref=lrdb(w)),
    "lrdb-grname": lambda w: trikit.load_lrdb(lob="comauto", grcode=1, grname="Z", dataref=lrdb(w)),
    "lrdb-grname-grcode": lambda w: trikit.load_lrdb(lob="comauto", grcode=1, grname="B", dataref=lrdb(w)),
    "lrdb-type": lambda w: trikit.load_lrdb(tri_type="triangle", lob="comauto", grcode=1, dataref=lrdb(w)),
}
for _k, _q in BADQ.items():
    INVALID["boot-q-" + _k] = lambda w, q=_q: w.tri.boot_cl(sims=2, q=q, random_state=1)
    INVALID["boot-q2-" + _k] = lambda w, q=_q: w.tri.boot_cl(sims=2, q=q, two_sided=True, random_state=1)
    INVALID["bq-" + _k] = lambda w, q=_q: w.get("boot").get_quantiles(q)
    INVALID["mack-q-" + _k] = lambda w, q=_q: w.tri.mack_cl(q=q)
    INVALID["mack-q2-" + _k] = lambda w, q=_q: w.tri.mack_cl(q=q, two_sided=True)
    INVALID["mq-" + _k] = lambda w, q=_q: w.get("mack").get_quantiles(q)
for _d in ("gamma", "", "NORM", "normal ", "lognormal2"):
    INVALID["mack-dist-" + _d] = lambda w, d=_d: w.tri.mack_cl(dist=d)
INVALID["bq-interpolation"] = lambda w: w.get("boot").get_quantiles(.5, interpolation="cubic")
NAMES = list(INVALID)
VALID = ["base", "base-medial", "base-list", "boot", "mack", "a2a_avgs", "latest", "diagonal-1", "totri", "totri-incr", "triind", "boot.get_quantiles", "mack.get_quantiles"]


def needs4(name):
    return name.startswith("mack") or name.startswith("mq")


def cases(tier):
    t = tier == "thorough"
    for shape in ([3, 3], [4, 4]):
        for fresh in (1, 0):
            for a in NAMES:
                if shape[0] > 3 or not needs4(a):
                    yield {"k": "one", "call": a, "fresh": fresh, "shape": shape}
    for a in NAMES:
        yield {"k": "pair", "call": a, "shape": [4, 4]}
        if t:
            yield {"k": "pair", "call": a, "data": "raa"}
    for k, a in enumerate(NAMES):
        yield {"k": "three", "call": a, "step": 1 if t else 13, "from": k % 13, "shape": [4, 4]}
    for shape in ([3, 3], [4, 4]):
        for f, ty in itertools.product(FMT, TYP):
            for sh in ("tabular", "triangle"):
                yield {"k": "spell", "fmt": f, "typ": ty, "sh": sh, "shape": shape}
    yield {"k": "load", "shape": [3, 3]}


_BASE = {}


def rejected(obs, name, w):
    obs.step()
    try:
        r = INVALID[name](w)
    except Exception:
        return True
    obs.fail("%s is accepted and returns %s" % (name, str(r)[:300]))
    return False


def run(case, obs):
    recs = mk.recs_of(case)
    if case["k"] == "spell":
        return spell(case, obs, recs)
    if case["k"] == "load":
        return load(obs)
    obs.state(*sorted((k, repr(v)) for k, v in case.items()))
    key = repr([case.get("shape"), case.get("data")])
    if case["k"] == "one":
        w = ops.World(recs)
        used = [] if case["fresh"] else [ops.snap(ops.outcome(n, w)) for n in VALID if w.tri.shape[0] > 3 or ("mack" not in n and n != "base-medial")]
        if case["call"][:2] in ("bq", "mq"):
            w.get({"b": "boot", "m": "mack"}[case["call"][0]])
        before = ops.snap(w.tri), ops.snap(w.data), ops.snap(w.boot), ops.snap(w.mack)
        if not rejected(obs, case["call"], w):
            return
        now = ops.snap(w.tri), ops.snap(w.data), ops.snap(w.boot), ops.snap(w.mack)
        obs.check(before == now, "rejected call %s changed the triangle, its data or results" % case["call"])
        return obs.trace()
    if case["k"] == "pair":
        seqs = [([case["call"]], v) for v in VALID]
    else:
        seqs = [([case["call"], b], VALID[(i + case["from"]) % len(VALID)]) for i, b in enumerate(NAMES) if i % case["step"] == case["from"] % case["step"]]
    if key not in _BASE:
        _BASE[key] = {v: ops.snap(ops.outcome(v, ops.World(recs))) for v in VALID}
    for bad, v in seqs:
        w = ops.World(recs)
        for b in bad:
            if not rejected(obs, b, w):
                return
        obs.step()
        obs.state(key, tuple(bad), v)
        got = ops.snap(ops.outcome(v, w))
        if got != _BASE[key][v]:
            return obs.fail("%s after rejected %s gives %s, otherwise %s" % (v, bad, str(got)[:400], str(_BASE[key][v])[:400]))
        obs.trace()


def spell(case, obs, recs):
    cum = case["fmt"] == "cum"
    recs = mk.cum_records(recs) if cum else recs
    data = mk.tabular(recs) if case["sh"] == "tabular" else mk.shaped(recs)
    want = trikit.totri(data, tri_type=case["typ"], data_format=case["fmt"], data_shape=case["sh"])
    for f, ty in itertools.product(FMT[case["fmt"]], TYP[case["typ"]]):
        got = trikit.totri(data, tri_type=ty, data_format=f, data_shape=case["sh"])
        obs.step()
        obs.state(f, ty, case["sh"], repr(case["shape"]))
        if type(got) is not type(want) or ops.snap(got) != ops.snap(want):
            return obs.fail("data_format=%r tri_type=%r gives %s\n%s\ninstead of %s\n%s" % (f, ty, type(got).__name__, got, type(want).__name__, want))
    obs.trace()


def load(obs):
    for names, kind in ((("c", "cum", "cumulative"), "cum"), (("i", "incr", "incremental"), "incr")):
        want = trikit.totri(trikit.load("raa"), tri_type=kind)
        for nm in names:
            got = trikit.load("raa", tri_type=nm)
            obs.step()
            obs.check(type(got) is type(want) and ops.snap(got) == ops.snap(want), "load(raa, tri_type=%r) is not the %s triangle" % (nm, kind))
    w = type("W", (), {})()
    ref = lrdb(w)
    for names, col in ((("p", "paid"), "paid"), (("i", "incurred", "inc"), "incurred")):
        want = trikit.load_lrdb(loss_type=col, lob="comauto", grcode=2, dataref=ref)
        for nm in names:
            obs.step()
            obs.check(ops.snap(trikit.load_lrdb(loss_type=nm, lob="comauto", grcode=2, dataref=ref)) == ops.snap(want), "load_lrdb(loss_type=%r) differs from %r" % (nm, col))
    import matplotlib.pyplot as plt
    tri = trikit.load("raa", tri_type="cum")
    for disp, n in (("combined", 1), ("c", 1), ("faceted", 10), ("f", 10), ("facet", 10)):
        plt.close("all")
        tri.plot(display=disp)
        obs.step()
        obs.check(len(plt.gcf().axes) == n, "plot(display=%r) has %d facets, expected %d" % (disp, len(plt.gcf().axes), n))
    plt.close("all")
    obs.trace()
