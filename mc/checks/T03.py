"""T03: conversions between triangle representations lose nothing."""
import itertools
import pandas as pd
import trikit
import ref
import mk
import space
from cmp import tri_diff, canon, same, size


def BOUNDS(tier):
    d = (4, 3) if tier == "thorough" else (3, 2)
    return {
        "operations": "to_incr/to_cum, to_tbl (dropna True and False), totri of to_tbl output and of the table itself to both types",
        "sequences": "every operation sequence of length <= %d on run-off and rectangular triangles of 2..5 periods x 7 label "
                     "schemes, <= %d on every triangle of the value space (the longest only for some shapes, by coverage)" % d,
        "values": "every assignment of {10, -5} (thorough: and 0, null) to the cells of a 3x3 triangle; every subset of cells of a 2x3 grid; "
                  "single holes, zeros, negative and huge amounts for n=4,5",
        "units": "amounts in units of 1e-12 .. 1e15, run-off and rectangular, 2..5 periods",
        "size": "round trips up to 14x14",
    }


def cases(tier):
    thorough = tier == "thorough"
    up3 = space.shape_cells(3)
    for vs in itertools.product([10.0, -5.0, 0.0, None] if thorough else [10.0, -5.0], repeat=6):
        yield {"recs": [[i, j, v] for (i, j), v in zip(up3, vs)], "scheme": "year", "depth": 2}
    cells = [(i, j) for i in range(2) for j in range(3)]
    for bits in range(1, 1 << 6):
        yield {"recs": [[i, j, space.amount(i, j)] for t, (i, j) in enumerate(cells) if bits >> t & 1], "scheme": "one", "depth": 2}
    for n in (4, 5):
        base = space.runoff(n)
        for c in sorted(base):
            for v in (None, 0.0, -321.25, 7.5e10, 0.003) if thorough or n == 4 else (None, -321.25):
                d = dict(base)
                d[c] = v
                yield {"recs": [[i, j, x] for (i, j), x in sorted(d.items())], "scheme": "month", "depth": 2}
    for n, m in ((2, 2), (3, 3), (4, 4), (2, 4), (4, 2), (5, 5)):
        for scheme in space.SCHEMES:
            yield {"shape": [n, m], "scheme": scheme, "depth": 4 if thorough and n < 5 else 3 if thorough or n + m == 6 else 2}
            yield {"shape": [n, m], "scheme": scheme, "depth": 3 if thorough else 2 if n + m == 6 else 1, "names": ["ay", "age", "loss"]}
    for n, m in ((2, 2), (3, 3), (2, 4), (5, 5)):
        for scale in (1e-12, 1e-9, 1e-5, 1e-3, 1e3 / 7, 1e9, 1e15):
            yield {"shape": [n, m], "scheme": "year", "variant": n, "scale": scale, "depth": 2}
    for n in range(6, 15):
        yield {"shape": [n, n], "scheme": "gap", "depth": 2}
        yield {"shape": [n, n], "scheme": "year", "depth": 1, "variant": 3, "scale": 1e6}


def model_tbl(kind, m, tt):
    """totri of the table of a model triangle of the given kind."""
    recs = ref.tbl(m)
    if kind == "cum":
        out, prev = [], {}
        for o, d, v in recs:
            out.append((o, d, v - prev.get(o, 0.0)))
            prev[o] = v
        recs = out
    return ref.incr_tri(recs) if tt == "incr" else ref.cum_tri(recs)


def ops(kind):
    other = "cum" if kind == "incr" else "incr"
    if kind == "cum":
        yield "to_incr", "incr", lambda t: t.to_incr(), ref.diff
    else:
        yield "to_cum", "cum", lambda t: t.to_cum(), lambda m: ref.cum_tri(ref.tbl(m))
    for tt in (kind, other):
        yield ("totri(to_tbl) %s" % tt, tt, lambda t, tt=tt: trikit.totri(t.to_tbl(), tri_type=tt, data_format=kind, origin=t.origin,
               dev=t.dev, value=t.value), lambda m, tt=tt: model_tbl(kind, m, tt))
    yield ("totri(table) %s" % other, other, lambda t: trikit.totri(pd.DataFrame(t), tri_type=other, data_format=kind,
           data_shape="triangle"), lambda m: model_tbl(kind, m, other))


def run(case, obs):
    recs = mk.recs_of(case)
    if not ref.cells_of(recs):
        return
    names = tuple(case.get("names", mk.NAMES))
    kw = dict(zip(("origin", "dev", "value"), names))
    scale = size([[r[2] for r in recs]])

    def check_tbl(tri, m, path):
        for dropna in (True, False):
            got = tri.to_tbl(dropna=dropna).to_numpy().tolist()
            obs.step()
            want = ref.tbl(m, dropna)
            obs.check(same(canon(got), canon(want), scale), lambda: "%s: to_tbl(dropna=%s) is %s, expected %s" % (path, dropna, got, want))

    def explore(tri, kind, m, path, depth):
        msg = tri_diff(tri, m, path, scale)
        obs.state(kind, path, canon(m[2]))
        if msg is not None:
            obs.fail(msg)
            return
        check_tbl(tri, m, path)
        if depth == 0:
            obs.trace()
            return
        for name, k2, f, g in ops(kind):
            obs.step()
            explore(f(tri), k2, g(m), path + "." + name, depth - 1)
            msg = tri_diff(tri, m, "%s after %s" % (path, name), scale)
            obs.check(msg is None, msg)

    for kind in ("incr", "cum"):
        m = ref.incr_tri(recs) if kind == "incr" else ref.cum_tri(recs)
        t = trikit.totri(mk.tabular(recs, names=names), tri_type=kind, **kw)
        explore(t, kind, m, kind, case["depth"])
