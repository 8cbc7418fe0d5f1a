"""T05: structural views agree with the triangle's cells."""
import trikit
import ref
import mk
import space
from cmp import canon, same, size, labels, isnan


def BOUNDS(tier):
    return {
        "presence": "every subset of cells of 1x2, 2x1, 2x2, 2x3, 3x2, 3x3 grids%s" % (", 2x4 and 4x2" if tier == "thorough" else ""),
        "shapes": "run-off, full and two-step grids of 1..7 origins x 1..7 periods, run-off up to 14x14",
        "deviations": "every single hole, null, zero, negative and floored cell of run-off triangles of 3..%d periods" % (7 if tier == "thorough" else 5),
        "labels": "8 schemes", "offsets": "every offset of diagonal from 0 to -(n-1)",
        "histories": "views read in the listed order, backwards, and each first on a fresh triangle; each read twice",
    }


def cases(tier):
    thorough = tier == "thorough"
    for n, m in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)) + (((2, 4), (4, 2)) if thorough else ()):
        cells = [(i, j) for i in range(n) for j in range(m)]
        for bits in range(1, 1 << len(cells)):
            yield {"recs": [[i, j, space.amount(i, j)] for t, (i, j) in enumerate(cells) if bits >> t & 1], "scheme": "year"}
    for n in range(1, 8):
        for m in range(1, 8):
            for kind in ("runoff", "full", "stair2"):
                if n * m > 1 and (thorough or kind == "runoff" or (n < 5 and m < 5)):
                    yield {"shape": [n, m], "kind": kind, "scheme": "month"}
    for n in range(3, 8 if thorough else 6):
        base = space.runoff(n)
        for c in sorted(base):
            for v in (None, 0.0, -55.0):
                d = dict(base)
                d[c] = v
                yield {"recs": [[i, j, x] for (i, j), x in sorted(d.items())], "scheme": "gap"}
    for scheme in space.SCHEMES:
        for n, m in ((2, 2), (3, 3), (4, 4), (6, 6), (3, 5), (5, 3)):
            yield {"shape": [n, m], "scheme": scheme, "orders": 1}
    for n in range(8, 15):
        yield {"shape": [n, n], "scheme": "wide"}
        yield {"shape": [n, n], "scheme": "hundred", "variant": 1, "scale": 1000.0}


VIEWS = ["nbr_cells", "clvi", "triind", "rlvi", "latest", "latest_by_origin", "latest_by_devp", "devp", "origins", "maturity", "diagonal"]


def expected(m, runoff):
    rows, cols, x = m
    lat = ref.latest(m)
    e = {
        "nbr_cells": float(sum(v is not None for r in x for v in r)),
        "clvi": [(c, rows[ref.last_valid_row(x, j)], ref.last_valid_row(x, j)) for j, c in enumerate(cols)],
        "rlvi": [(o, cols[ref.last_valid_col(x[i])], ref.last_valid_col(x[i])) for i, o in enumerate(rows)],
        "triind": (rows, cols, ref.triind(m)), "latest": lat, "latest_by_origin": [(o, v) for o, d, v in lat],
        "latest_by_devp": sorted((d, v) for o, d, v in lat), "devp": cols, "origins": rows,
        "maturity": [(o, cols[k]) for o, k in zip(rows, ref.maturity_idx(m))]}
    if runoff:
        n = len(rows)
        e["diagonal"] = [[(rows[i], cols[n - 1 - i - k], x[i][n - 1 - i - k]) for i in range(n - k)] for k in range(n)]
    return e


def observed(t, view, runoff):
    if view == "nbr_cells":
        return int(t.nbr_cells)
    if view == "clvi":
        f = t.clvi
        return list(zip(f.index, f["origin"], f["row_offset"]))
    if view == "rlvi":
        f = t.rlvi
        return list(zip(f.index, f["dev"], f["col_offset"]))
    if view == "triind":
        f = t.triind
        return list(f.index), list(f.columns), f.to_numpy().tolist()
    if view == "latest":
        f = t.latest
        return list(zip(f["origin"], f["dev"], f["latest"]))
    if view in ("latest_by_origin", "maturity"):
        f = getattr(t, view)
        return list(zip(f.index, f))
    if view == "latest_by_devp":
        f = t.latest_by_devp
        got = list(zip(f.index, f))
        return sorted(got) if [d for d, _ in got] == sorted(d for d, _ in got) else ("unsorted", got)
    if view in ("devp", "origins"):
        return list(getattr(t, view))
    return [list(zip(f["origin"], f["dev"], f["value"])) for f in (t.diagonal(-k) if k else t.diagonal() for k in range(t.shape[0]))]


def run(case, obs):
    recs = mk.recs_of(case)
    if not ref.cells_of(recs):
        return
    scale = size([[r[2] for r in recs]])
    for tt in ("incr", "cum"):
        m = ref.incr_tri(recs) if tt == "incr" else ref.cum_tri(recs)
        rows, cols, x = m
        n = len(rows)
        # a run-off triangle: the last observed period of origin i is n - 1 - i
        runoff = n == len(cols) and all((x[i][j] is not None) == (i + j < n) for i in range(n) for j in range(n) if i + j >= n - 1)
        want = expected(m, runoff)
        views = [v for v in VIEWS if v in want]
        obs.state(tt, canon(m))

        def look(t, v, how):
            got, w = canon(observed(t, v, runoff)), canon(want[v])
            obs.step()
            obs.check(same(got, w, scale), lambda: "%s triangle of %s, %s %s: %s, expected %s" % (tt, recs[:10], v, how, got, w))

        fresh = lambda: trikit.totri(mk.tabular(recs), tri_type=tt)
        t = fresh()
        for v in views:
            look(t, v, "in order")
        for v in views[::-1]:
            look(t, v, "read again")
        if case.get("orders"):
            t = fresh()
            for v in views[::-1]:
                look(t, v, "backwards")
            for v in views:
                look(fresh(), v, "on a fresh triangle")
        other = fresh().to_incr() if tt == "cum" else fresh().to_cum()
        m2 = ref.diff(m) if tt == "cum" else ref.cum_tri(ref.tbl(m))
        e2 = expected(m2, False)
        for v in ("clvi", "rlvi", "triind", "latest", "maturity", "nbr_cells"):
            got, w = canon(observed(other, v, False)), canon(e2[v])
            obs.step()
            obs.check(same(got, w, scale), lambda: "%s of converted %s triangle of %s: %s, expected %s" % (v, tt, recs[:10], got, w))
    obs.trace()
