"""T18: random_state makes bootstrap runs reproducible and isolated."""
import itertools
import numpy as np
import trikit
import mk
import space
from core import digest
from cmp import canon

OPS = ["int4", "np4", "int9", "int4p", "rsA", "rsAp", "rsB", "none", "nonep", "seed1", "draw", "mack"]


def BOUNDS(tier):
    t = tier == "thorough"
    return {"histories": "every sequence of at most %d operations out of %s%s" % (3, OPS, "; of 4 out of the first 10 operations" if t else " (length 3: one in 5)"),
            "observed": "sims_data, reserve_dist and summary of every run, the state of numpy's global generator and of both RandomState objects after every operation",
            "integers": "int, numpy int64, int32, uint8, uint32, 0 and 2^32-1; seeds 0-%d pairwise different; a seed and its 32 single-bit changes pairwise different, residuals and reserves" % (60 if t else 24),
            "no random_state": "after np.random.seed(s), s = 0-%d, two runs in a row draw what a RandomState(s) in the same state gives, and leave the same state" % ((40 if t else 12) - 1),
            "triangles": "3 and 4 periods, raa"}


def cases(tier):
    t = tier == "thorough"
    for d in (1, 2, 3):
        for k, seq in enumerate(itertools.product(OPS, repeat=d)):
            if t or d < 3 or k % 5 == 0:
                yield {"k": "hist", "seq": list(seq), "shape": [3, 3]}
    if t:
        for seq in itertools.product(OPS[:10], repeat=4):
            yield {"k": "hist", "seq": list(seq), "shape": [3, 3]}
    for tri in ({"shape": [4, 4]}, {"data": "raa"}):
        for seq in itertools.product(["int4", "rsA", "none", "seed1"], repeat=2):
            yield dict(tri, k="hist", seq=list(seq))
    for par in (0, 1):
        for kind in ("int", "int64", "int32", "uint8", "uint32", "rs"):
            yield {"k": "seeds", "n": 60 if t else 24, "par": par, "as": kind, "shape": [3, 3]}
        yield {"k": "ends", "par": par, "shape": [4, 4]}
        yield {"k": "bits", "par": par, "shape": [3, 3]}
        for tri in ({"shape": [3, 3]}, {"shape": [4, 4]}):
            yield dict(tri, k="global", n=40 if t else 12, par=par)


def state(g):
    return digest(tuple(x.tobytes() if hasattr(x, "tobytes") else x for x in g))


def result(r):
    return digest((canon(r.sims_data), canon(r.reserve_dist), canon(r.summary)))


def run(case, obs):
    tri = trikit.totri(mk.tabular(mk.recs_of(case)))
    if case["k"] == "seeds":
        return seeds(case, obs, tri)
    if case["k"] == "bits":
        seen = {}
        for s in [5] + [5 ^ 1 << b for b in range(32)] + [2 ** 32 - 1 - (1 << b) for b in range(0, 32, 3)]:
            obs.state("bits", s, case["par"])
            obs.step(2)
            r = tri.boot_cl(sims=3, random_state=s, parametric=bool(case["par"]))
            for what, x in (("resampled residuals", r.sims_data["resid"].tolist()), ("reserves", r.reserve_dist["reserve"].tolist())):
                k = what, digest(canon(x))
                if k in seen:
                    return obs.fail("seeds %d and %d give the same %s" % (seen[k], s, what))
                seen[k] = s
        return obs.trace()
    if case["k"] == "global":
        par = bool(case["par"])
        for s in range(case["n"]):
            np.random.seed(s)
            rs = np.random.RandomState(s)
            for j, sims in enumerate((2, 3)):
                obs.state("global", s, par, j)
                obs.step(2)
                a = result(tri.boot_cl(sims=sims, random_state=None, parametric=par))
                b = result(tri.boot_cl(sims=sims, random_state=rs, parametric=par))
                if a != b or state(np.random.get_state()) != state(rs.get_state()):
                    return obs.fail("run %d without random_state after np.random.seed(%d): same simulations as with a RandomState(%d) %s, same state afterwards %s" % (
                        j, s, s, a == b, state(np.random.get_state()) == state(rs.get_state())))
        return obs.trace()
    if case["k"] == "ends":
        par = bool(case["par"])
        for s in (0, 1, 2 ** 31, 2 ** 32 - 1):
            g = state(np.random.get_state())
            a = [result(tri.boot_cl(sims=2, random_state=s, parametric=par)) for _ in (0, 1)]
            obs.state(s, par)
            obs.step(2)
            if a[0] != a[1] or g != state(np.random.get_state()):
                return obs.fail("random_state=%d: runs equal %s, global generator untouched %s" % (s, a[0] == a[1], g == state(np.random.get_state())))
        return obs.trace()
    np.random.seed(0)
    rs = {"A": np.random.RandomState(5), "B": np.random.RandomState(5)}
    seen = {}
    for k, op in enumerate(case["seq"]):
        par = op.endswith("p") and op != "seed1p"
        g0, a0 = state(np.random.get_state()), {x: state(v.get_state()) for x, v in rs.items()}
        kw = dict(sims=3, parametric=par)
        what = "operation %d of %s" % (k, case["seq"])
        r = None
        if op.startswith("int") or op.startswith("np"):
            v = int(op.strip("intpp"))
            r = result(tri.boot_cl(random_state=np.int64(v) if op.startswith("np") else v, **kw))
            key = ("int", v, par)
        elif op.startswith("rs"):
            r = result(tri.boot_cl(random_state=rs[op[2]], **kw))
            key = ("rs", a0[op[2]], par)
        elif op.startswith("none"):
            r = result(tri.boot_cl(random_state=None, **kw) if k % 2 else tri.boot_cl(**kw))
            key = ("none", g0, par)
        elif op == "seed1":
            np.random.seed(1)
        elif op == "draw":
            np.random.rand()
        elif op == "mack":
            tri.base_cl()
            if tri.shape[0] > 3:
                tri.mack_cl().devp_corr_test()
            else:
                np.random.normal(size=3)
        g1, a1 = state(np.random.get_state()), {x: state(v.get_state()) for x, v in rs.items()}
        obs.state(tuple(case["seq"][:k + 1]), case.get("data"), g1, a1["A"], a1["B"])
        obs.step()
        if r is None:
            continue
        after = {"int": None, "rs": a1.get(op[2:3]), "none": g1}[key[0]]
        if key in seen and seen[key] != (r, after):
            return obs.fail("%s (%s) gives other results than an earlier run from the same %s" % (what, op, "seed" if key[0] == "int" else "generator state"))
        for k2, v2 in seen.items():
            if k2 != key and v2[0] == r and k2[0] == key[0]:
                return obs.fail("%s (%s) gives the same simulations as an earlier run with another seed or generator state" % (what, op))
        seen[key] = (r, after)
        if key[0] != "none" and g1 != g0:
            return obs.fail("%s (%s) changed numpy's global generator" % (what, op))
        if key[0] == "none" and g1 == g0:
            return obs.fail("%s (%s) did not advance numpy's global generator" % (what, op))
        for x in rs:
            if (a1[x] != a0[x]) != (key[0] == "rs" and op[2] == x):
                return obs.fail("%s (%s): RandomState %s %s" % (what, op, x, "changed" if a1[x] != a0[x] else "was not advanced"))
    # the same histories against reference runs on an untouched triangle
    other = trikit.totri(mk.tabular(mk.recs_of(case)))
    for key, (r, _) in seen.items():
        if key[0] == "int":
            np.random.seed(99)
            if result(other.boot_cl(sims=3, parametric=key[2], random_state=key[1])) != r:
                return obs.fail("random_state=%d after %s differs from the first run on a new triangle" % (key[1], case["seq"]))
    for key, (r, _) in seen.items():
        if key[0] == "rs" and key[1] == state(np.random.RandomState(5).get_state()):
            if result(other.boot_cl(sims=3, parametric=key[2], random_state=np.random.RandomState(5))) != r:
                return obs.fail("a new RandomState(5) gives other results within %s" % case["seq"])
    obs.trace()


def seeds(case, obs, tri):
    par = bool(case["par"])
    conv = {"int": int, "int64": np.int64, "int32": np.int32, "uint8": np.uint8, "uint32": np.uint32, "rs": np.random.RandomState}[case["as"]]
    seen = {}
    for s in range(case["n"]):
        obs.state(case["as"], s, par)
        obs.step()
        r = tri.boot_cl(sims=3, random_state=conv(s), parametric=par)
        k = digest(canon(r.reserve_dist["reserve"].tolist()))
        if k in seen:
            return obs.fail("seeds %d and %d (%s) give the same simulations" % (seen[k], s, case["as"]))
        seen[k] = s
        if case["as"] != "rs" and result(r) != result(tri.boot_cl(sims=3, random_state=s, parametric=par)):
            return obs.fail("seed %d as %s and as int give different simulations" % (s, case["as"]))
    obs.trace()
