"""T09: supplied development factors are used exactly as given."""
import itertools
import numpy as np
import pandas as pd
import trikit
import ref
import mk
import space
from cmp import canon, close, same, size
from clcmp import compare_cl

VALUES = [0.5, 1.0, 1.25, 2.0, 3.0]
CONTAINERS = ["list", "tuple", "array", "series", "float32", "objlist", "npscalars", "view", "named"]
INTS = ["list", "tuple", "array", "series", "int32"]
TAILS = [1.0, 1.1, 2, 0.5]


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "factors": "every vector over %s for 2, 3 and 4 development periods%s; every permutation of 5 and 6 distinct factors in 5 steps" % (VALUES, " and over 3 of the values for 5" if t else ""),
        "containers": "list, tuple, float64/float32/object arrays, numpy scalars, strided views, Series with and without name; integers as list, tuple, int64, int32, Series",
        "tails": str(TAILS), "lengths": "every length from 0 to n+2 except n-1 and every container, rejected, followed by a valid call",
        "average rows": "every a2a_avgs row passed as row values / list / tuple / array, 2-8 periods, 7 packaged datasets",
        "shapes": "run-off, full and stepped grids with 2-6 origins and periods, 8 label schemes",
    }


def cases(tier):
    t = tier == "thorough"
    for n in (2, 3, 4):
        for k, vec in enumerate(itertools.product(VALUES, repeat=n - 1)):
            yield {"k": "vec", "shape": [n, n], "scheme": space.SCHEMES[k % 8], "vec": list(vec), "cont": CONTAINERS if t or n < 4 else [CONTAINERS[k % 9], CONTAINERS[(k + 4) % 9]],
                   "tails": TAILS if t or n < 4 else [TAILS[k % 4], TAILS[(k + 1) % 4]]}
    if t:
        for k, vec in enumerate(itertools.product([0.5, 1.0, 2.0], repeat=4)):
            yield {"k": "vec", "shape": [5, 5], "scheme": space.SCHEMES[k % 8], "vec": list(vec), "cont": CONTAINERS, "tails": TAILS[:2]}
    for k, p in enumerate(itertools.permutations([0.9, 1.0, 1.3, 1.7])):
        yield {"k": "vec", "shape": [5, 5], "scheme": "gap", "vec": list(p), "cont": ["list", "series"], "tails": [1.1]}
    for k, vec in enumerate(itertools.product([1, 2, 3], repeat=2)):
        yield {"k": "int", "shape": [3, 3], "scheme": space.SCHEMES[k % 8], "vec": list(vec), "tails": [1, 1.1, 2]}
    for n in range(1, 7):
        for m in range(2, 7):
            for kind in ("runoff", "full", "stair2"):
                yield {"k": "vec", "shape": [n, m], "kind": kind, "scheme": space.SCHEMES[(n + m) % 8], "vec": [2.0 - 0.21 * j for j in range(m - 1)],
                       "cont": CONTAINERS if t else ["list", "array", "series"], "tails": [1.0, 1.1]}
    for n in range(2, 6):
        for scheme in ("one", "month"):
            yield {"k": "len", "shape": [n, n], "scheme": scheme}
    for n in range(2, 9 if t else 6):
        for scheme in space.SCHEMES if t or n < 4 else ("wide",):
            yield {"k": "row", "shape": [n, n], "scheme": scheme}
    for d in mk.FILES:
        yield {"k": "row", "data": d, "few": 0 if t else 1}


def wrap(vec, cont, devp):
    f = [float(v) for v in vec]
    if cont == "list":
        return list(f)
    if cont == "tuple":
        return tuple(f)
    if cont == "array":
        return np.array(f)
    if cont == "float32":
        return np.array(f, dtype="float32")
    if cont == "objlist":
        return np.array(f, dtype=object)
    if cont == "npscalars":
        return [np.float64(v) for v in f]
    if cont == "view":
        return np.array([x for v in f for x in (v, -1.0)])[::2]
    if cont == "series":
        return pd.Series(f, index=devp[:len(f)])
    if cont == "named":
        return pd.Series(f, index=devp[:len(f)], name="all-weighted")
    raise KeyError(cont)


def wrap_int(vec, cont, devp):
    return {"list": list(vec), "tuple": tuple(vec), "array": np.array(vec), "int32": np.array(vec, dtype="int32"),
            "series": pd.Series(list(vec), index=devp[:len(vec)])}[cont]


def run(case, obs):
    recs = mk.recs_of(case)
    m = ref.cum_tri(recs)
    devp, scale = m[1], size(m[2])
    tri = trikit.totri(mk.tabular(recs))
    if case["k"] in ("vec", "int"):
        rows = [(c, wrap(case["vec"], c, devp)) for c in case["cont"]] if case["k"] == "vec" else [(c, wrap_int(case["vec"], c, devp)) for c in INTS]
        for cont, sel in rows:
            vals = [float(v) for v in sel]                # float32 rounds the factor itself
            for tail in case["tails"]:
                r = tri.base_cl(sel=sel, tail=tail)
                obs.state(m, tuple(vals), tail)
                if compare_cl(obs, r, m, vals + [float(tail)], "base_cl(%s %s, tail=%s)" % (cont, vals, tail)) is not True:
                    return
                if r.tail != tail or r.tri is not tri:
                    obs.fail("result reports tail %s" % r.tail)
    elif case["k"] == "len":
        n = len(devp)
        good = [1.5 - 0.1 * j for j in range(n - 1)]
        want = canon(tri.base_cl(sel=good, tail=1.1).summary)
        for k in range(n + 3):
            if k == n - 1:
                continue
            vec = [1.5 + 0.1 * j for j in range(k)]
            for cont in ("list", "tuple", "array", "series"):
                sel = wrap(vec, cont, (devp + [devp[-1] + 1, devp[-1] + 2, devp[-1] + 3]))
                obs.state(n, k, cont)
                obs.step()
                try:
                    r = tri.base_cl(sel=sel, tail=1.1)
                except Exception:
                    r = None
                if r is not None:
                    obs.fail("%d factors (%s) accepted for %d development periods: ldfs %s" % (k, cont, n, dict(r.ldfs)))
                    return
                if not same(canon(tri.base_cl(sel=good, tail=1.1).summary), want, scale):
                    obs.fail("a valid call gives another result after %d factors were rejected" % k)
                    return
    else:
        avgs = tri.a2a_avgs()
        labs = list(avgs.index)
        if case.get("few"):
            labs = labs[:3] + labs[-4:]
        for lab in labs:
            row = avgs.loc[lab]
            vals = [float(v) for v in row]
            for tail in (1.0, 1.1):
                a = tri.base_cl(sel=lab, tail=tail)
                for nm, sel in (("Series", row), ("list", list(row)), ("tuple", tuple(row)), ("array", row.to_numpy())):
                    b = tri.base_cl(sel=sel, tail=tail)
                    obs.state(m, lab, tail)
                    obs.step()
                    for attr in ("summary", "trisqrd", "ldfs"):
                        x, y = canon(getattr(a, attr)), canon(getattr(b, attr))
                        if attr == "ldfs":
                            x, y = x[:-1], y[:-1]                 # the name of the Series
                        if not same(x, y, scale):
                            obs.fail("%s of base_cl(sel=%s as %s, tail=%s) differs from naming the row: %s" % (attr, lab, nm, tail, y))
                            return
                    if not all(close(u, v) for u, v in zip(b.ldfs, vals + [tail])):
                        obs.fail("ldfs %s" % list(b.ldfs))
                        return
    obs.trace()
