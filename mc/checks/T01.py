"""T01: cells of incremental and cumulative triangles equal the recorded amounts."""
import itertools
import numpy as np
import pandas as pd
import trikit
import ref
import space
from cmp import tri_diff

NULL = None


def BOUNDS(tier):
    return {
        "presence": "every subset of cells of 1x2, 2x2, 2x3, 3x2 and 3x3 grids (3x3: %s), generic amounts"
                    % ("all 512" if tier == "thorough" else "every subset with an origin and period 1 present"),
        "values": "every assignment of {-50, 0, null, 10, 2.5e9} to the 3 cells of a 2x2 triangle and of "
                  "{-5, null, 10%s} to the 6 cells of a 3x3 triangle" % (", 0" if tier == "thorough" else ""),
        "records": "every single and pair of cells split into 2 or 3 records (also with opposite signs), n=3; "
                   "every order of the records of a 2x2 triangle with one duplicate; 6 orders elsewhere",
        "deviations": "every single hole/null/zero/negative/huge/tiny cell, n=4..6 (thorough: pairs, n=4), "
                      "8 label schemes, 4 column and index variants",
        "size": "run-off triangles up to 14x14 and rectangles up to 10x10",
    }


def grid_cases(n, m, keep):
    cells = [(i, j) for i in range(n) for j in range(m)]
    for bits in range(1, 1 << len(cells)):
        present = [c for k, c in enumerate(cells) if bits >> k & 1]
        if not keep(present):
            continue
        yield [[i, j, space.amount(i, j)] for i, j in present]


DEV_VALUES = {"null": NULL, "zero": 0.0, "neg": -37.5, "huge": 3.5e11, "tiny": 0.0004}


def cases(tier):
    thorough = tier == "thorough"
    always = lambda p: True
    anchored = lambda p: any(j == 0 for _, j in p) and any(i == 0 for i, _ in p)
    for n, m in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
        for recs in grid_cases(n, m, always):
            yield {"recs": recs, "scheme": "year"}
    for recs in grid_cases(3, 3, always if thorough else anchored):
        yield {"recs": recs, "scheme": "one"}
    # value alphabets
    up2 = [(0, 0), (0, 1), (1, 0)]
    for vs in itertools.product([10.0, -50.0, 0.0, NULL, 2.5e9], repeat=3):
        yield {"recs": [[i, j, v] for (i, j), v in zip(up2, vs)], "scheme": "month"}
    up3 = space.shape_cells(3)
    for vs in itertools.product([10.0, -5.0, NULL] + ([0.0] if thorough else []), repeat=6):
        yield {"recs": [[i, j, v] for (i, j), v in zip(up3, vs)], "scheme": "one"}
    # several records per cell
    splits = [[0.5, 0.5], [1.5, -0.5], [-0.25, 0.75, 0.5], [-2.0, 1.0, 2.0]]
    for k in (1, 2):
        for who in itertools.combinations(range(6), k):
            for sp in itertools.product(range(len(splits)), repeat=k):
                if k == 2 and not thorough and sp[0] != sp[1]:
                    continue
                recs = []
                for t, (i, j) in enumerate(up3):
                    v = space.amount(i, j)
                    if t in who:
                        recs += [[i, j, v * f] for f in splits[sp[who.index(t)]]]
                    else:
                        recs.append([i, j, v])
                for order in (space.ORDERS if k == 1 else ["interleaved", "bydevrev"]):
                    yield {"recs": recs, "scheme": "year", "order": order}
    # every order of the records
    recs = [[0, 0, 100.0], [0, 1, 60.0], [1, 0, 120.0], [0, 1, -20.0]]
    for perm in itertools.permutations(range(4)):
        yield {"recs": recs, "scheme": "one", "order": list(perm)}
        yield {"recs": recs + [[1, 1, 5.0]], "scheme": "gap", "order": list(perm) + [4]}
    # single deviations on larger triangles
    for n in (4, 5, 6) if thorough else (4, 5):
        base = space.runoff(n)
        for c in sorted(base):
            for kind, v in DEV_VALUES.items():
                d = dict(base)
                d[c] = v
                yield {"recs": [[i, j, x] for (i, j), x in sorted(d.items())], "scheme": "year", "order": "bydev"}
            d = dict(base)
            del d[c]
            yield {"recs": [[i, j, x] for (i, j), x in sorted(d.items())], "scheme": "one", "order": "rotated"}
    if thorough:
        base = space.runoff(4)
        for c1, c2 in itertools.combinations(sorted(base), 2):
            for k1, k2 in itertools.product(["null", "zero", "neg", "huge"], repeat=2):
                d = dict(base)
                d[c1], d[c2] = DEV_VALUES[k1], DEV_VALUES[k2]
                yield {"recs": [[i, j, x] for (i, j), x in sorted(d.items())], "scheme": "year", "order": "reversed"}
    # labels, columns and index
    for n in (2, 3, 5):
        for scheme in space.SCHEMES:
            for order in space.ORDERS:
                for form in ("plain", "extra", "index", "float"):
                    recs = [[i, j, v] for (i, j), v in sorted(space.runoff(n, 1).items())]
                    yield {"recs": recs, "scheme": scheme, "order": order, "form": form}
    # size
    for n in range(6, 15):
        recs = [[i, j, v] for (i, j), v in sorted(space.runoff(n).items())]
        yield {"recs": recs, "scheme": "year", "order": "interleaved"}
        yield {"recs": recs, "scheme": "month", "order": "bydevrev"}
    for n, m in ((3, 7), (7, 3), (10, 10), (4, 12)):
        recs = [[i, j, space.amount(i, j)] for i in range(n) for j in range(m)]
        yield {"recs": recs, "scheme": "year", "order": "reversed"}
        recs = [[i, j, v] for i, j, v in recs if i + j < max(n, m)]
        yield {"recs": recs, "scheme": "hundred", "order": "rotated"}


def records_of(case):
    recs = [tuple(r) for r in case["recs"]]
    n = 1 + max(r[0] for r in recs)
    m = 1 + max(r[1] for r in recs)
    o, d = space.labels(case["scheme"], n, m)
    recs = [(o[i], d[j], v) for i, j, v in recs]
    return space.reorder(recs, case.get("order", "sorted"))


def data_frame(recs, form="plain"):
    df = pd.DataFrame({
        "origin": [r[0] for r in recs], "dev": [r[1] for r in recs],
        "value": [np.nan if r[2] is None else r[2] for r in recs]})
    if form == "extra":
        df.insert(0, "lob", ["x%d" % (k % 2) for k in range(len(df))])
        df["paid"] = df["value"] * 3 + 1
    elif form == "index":
        df.index = [7 * (k + 3) % 11 for k in range(len(df))]
    elif form == "float":
        fits = lambda c, t: t if df[c].abs().max() < 2 ** (15 if t == "int16" else 31) else "int64"
        df = df.astype({"origin": fits("origin", "int32"), "dev": fits("dev", "int16"), "value": float})
    return df


def run(case, obs):
    recs = records_of(case)
    if not ref.cells_of(recs):
        return                       # no amounts at all: no triangle is defined
    df = data_frame(recs, case.get("form", "plain"))
    want = ref.incr_tri(recs)
    obs.state(recs)
    tri = trikit.totri(df.copy(), tri_type="incr")
    obs.step()
    msg = tri_diff(tri, want, "incremental triangle of %s" % recs[:12])
    obs.check(msg is None, msg)
    want = ref.cum_tri(recs)
    tri = trikit.totri(df.copy(), tri_type="cum")
    obs.step()
    msg = tri_diff(tri, want, "cumulative triangle of %s" % recs[:12])
    obs.check(msg is None, msg)
    tri = trikit.totri(df.copy())
    obs.check(tri_diff(tri, want, "default triangle type") is None, "totri does not default to a cumulative triangle")
    obs.trace()
