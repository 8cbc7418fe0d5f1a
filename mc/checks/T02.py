"""T02: equivalent representations of the same losses give the same triangle."""
import ast
import itertools
import os
import re
import pandas as pd
import trikit
import ref
import mk
import space
from cmp import tri_diff, canon, same

NAMESETS = [("origin", "dev", "value"), ("acc_yr", "age", "loss_amt"), ("dev", "origin", "value"), ("value", "dev", "origin"),
            ("index", "variable", "latest")]

CORE = ("cum", "incr", "index", "latest", "level_0", "variable", "name", "size", "T", "dev", "value", "origin")


def words():
    """Column names the package itself uses anywhere (identifiers among its string constants), and names of frame attributes."""
    global _WORDS
    if _WORDS is None:
        found = set(CORE) | {"columns", "count", "sum", "shape", "loc", "iloc", "values", "items", "tri", "loss amount", "0", "_x", "total", "apply"}
        top = os.path.dirname(trikit.__file__)
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(files):
                if f.endswith(".py"):
                    for n in ast.walk(ast.parse(open(os.path.join(d, f), encoding="utf-8").read())):
                        if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r"[A-Za-z_]\w{0,20}", n.value):
                            found.add(n.value)
        _WORDS = sorted(found)
    return _WORDS


_WORDS = None


def BOUNDS(tier):
    return {
        "representations": "incremental/cumulative x tabular/triangle-shaped x both triangle types, for every case",
        "presence": "every subset of cells of 2x2, 2x3, 3x2 grids%s, generic amounts" % (" and 3x3" if tier == "thorough" else ""),
        "values": "every assignment of {10, -5, null} (quick: {10, -5} and single nulls) to the cells of a 3x3 triangle",
        "forms": "5 column name triples x 7 tabular forms (extra and decoy columns, index kinds, dtypes, column order) x 6 record orders, "
                 "7 triangle-shaped forms x given column names, 8 label schemes, n=2,3,5%s" % (",8" if tier == "thorough" else ""),
        "derived": "latest, latest_by_origin, to_tbl, to_incr, to_cum, base_cl for every column name triple; boot_cl for one triangle",
        "names": "%d names (every word among the package's string constants, frame attributes) as origin, dev and value name%s, and all at once as additional columns: "
                 "cells from every representation and the derived amounts" % (len(words()), ", every ordered pair of %d of them" % len(CORE)),
        "size": "run-off up to 14x14, rectangles up to 8x5",
    }


def cases(tier):
    thorough = tier == "thorough"
    for n, m in ((2, 2), (2, 3), (3, 2)) + (((3, 3),) if thorough else ()):
        cells = [(i, j) for i in range(n) for j in range(m)]
        for bits in range(1, 1 << len(cells)):
            yield {"k": "reps", "recs": [[i, j, space.amount(i, j)] for t, (i, j) in enumerate(cells) if bits >> t & 1], "scheme": "year"}
    up3 = space.shape_cells(3)
    for vs in itertools.product([10.0, -5.0, None] if thorough else [10.0, -5.0], repeat=6):
        yield {"k": "reps", "recs": [[i, j, v] for (i, j), v in zip(up3, vs)], "scheme": "month"}
    for n in (3, 4) if not thorough else (3, 4, 5):
        base = space.runoff(n)
        for c in sorted(base):
            for v in (None, 0.0, -1234.5, 9.9e9):
                d = dict(base)
                d[c] = v
                yield {"k": "reps", "recs": [[i, j, x] for (i, j), x in sorted(d.items())], "scheme": "one"}
    for n in (2, 3, 5) + ((8,) if thorough else ()):
        for scheme in space.SCHEMES:
            yield {"k": "shapedforms", "shape": [n, n], "scheme": scheme}
            for nm in range(len(NAMESETS)):
                for form in ("plain", "extra", "decoy", "index", "strindex", "small", "colorder"):
                    yield {"k": "forms", "shape": [n, n], "scheme": scheme, "names": nm, "form": form,
                           "orders": space.ORDERS if n == 3 or thorough else ["reversed", "interleaved"]}
    for nm in range(len(NAMESETS)):
        for scheme in ("one", "month", "gap"):
            yield {"k": "derived", "shape": [4, 4], "scheme": scheme, "names": nm}
            yield {"k": "derived", "shape": [3, 5], "scheme": scheme, "names": nm}
    ws = words()
    for k in range(len(ws)):                # every word once in each place
        yield {"k": "words", "shape": [4, 4], "scheme": "month", "names": [ws[k], ws[(k + 71) % len(ws)], ws[(k + 142) % len(ws)]]}
        if thorough:
            for q in range(3):
                nm = [w for w in NAMESETS[0] if w != ws[k]][:2]
                nm.insert(q, ws[k])
                yield {"k": "words", "shape": [4, 4], "scheme": "year", "names": nm}
    for a, b in itertools.permutations(CORE, 2):
        for k in range(3):
            nm = [a, b]
            free = [w for w in NAMESETS[0] + ("x",) if w not in nm]
            nm.insert(k, free[0])
            yield {"k": "words", "shape": [4, 4], "scheme": "year", "names": nm, "few": True}
    for scheme in space.SCHEMES:
        yield {"k": "words", "shape": [4, 4], "scheme": scheme, "names": list(NAMESETS[0]), "extra": True}
    for n, m in [(k, k) for k in range(6, 15)] + [(8, 5), (5, 8), (3, 7)]:
        yield {"k": "reps", "shape": [n, m], "scheme": "gap"}
        yield {"k": "reps", "shape": [n, m], "scheme": "hundred", "order": "bydevrev"}


def build(df, tt, fmt, shp, **kw):
    return trikit.totri(df, tri_type=tt, data_format=fmt, data_shape=shp, **kw)


def run(case, obs):
    recs = mk.recs_of(case)
    cells = ref.cells_of(recs)
    if not cells:
        return
    want = {"incr": ref.incr_tri(recs), "cum": ref.cum_tri(recs)}
    cums = mk.cum_records(recs)
    obs.state(recs)

    def compare(tri, tt, what):
        obs.step()
        obs.state(what, tt)
        msg = tri_diff(tri, want[tt], what + " -> " + tt)
        obs.check(msg is None, msg)
        kind = "CumTriangle" if tt == "cum" else "IncrTriangle"
        obs.check(type(tri).__name__ == kind, "%s -> %s is a %s" % (what, tt, type(tri).__name__))

    if case["k"] == "reps":
        for tt in ("incr", "cum"):
            compare(build(mk.tabular(recs), tt, "incr", "tabular"), tt, "incremental records")
            compare(build(mk.tabular(cums), tt, "cum", "tabular"), tt, "cumulative records")
            compare(build(mk.shaped(recs), tt, "incr", "triangle"), tt, "incremental table")
            compare(build(mk.shaped(cums), tt, "cum", "triangle"), tt, "cumulative table")
        # null cells present as records, cumulative records split over two lines and out of order
        nulls = [r for r in recs if r[2] is None]
        rs = [(o, d, v * 0.25) for o, d, v in cums[::-1]] + nulls + [(o, d, v * 0.75) for o, d, v in cums]
        compare(build(mk.tabular(rs), "incr", "cum", "tabular"), "incr", "split cumulative records")
        compare(build(mk.tabular(rs), "cum", "cum", "tabular"), "cum", "split cumulative records")
    elif case["k"] == "shapedforms":
        for form in ("plain", "named", "colname", "both", "dev", "strcols", "reversed", "emptyrow"):
            for tt in ("incr", "cum"):
                for fmt, rs in (("incr", recs), ("cum", cums)):
                    compare(build(mk.shaped(rs, form), tt, fmt, "triangle"), tt, "%s table, %s" % (fmt, form))
                    compare(build(mk.shaped(rs, form), tt, fmt, "triangle", origin="acc_yr", dev="age", value="loss"),
                            tt, "%s table, %s, with column names" % (fmt, form))
    elif case["k"] == "forms":
        names = NAMESETS[case["names"]]
        kw = dict(zip(("origin", "dev", "value"), names))
        for tt in ("incr", "cum"):
            for fmt, rs in (("incr", recs), ("cum", cums)):
                for order in case["orders"]:
                    df = mk.tabular(space.reorder(rs, order), case["form"], names)
                    compare(build(df, tt, fmt, "tabular", **kw), tt, "%s records, %s %s %s" % (fmt, names, case["form"], order))
    elif case["k"] == "words":
        names = tuple(case["names"])
        kw = dict(zip(("origin", "dev", "value"), names))
        def data(rs):
            df = mk.tabular(rs, "plain", names)
            if case.get("extra"):
                df = pd.concat([pd.DataFrame({w: [k % 7] * len(df) for k, w in enumerate(words()) if w not in names}), df], axis=1)
            return df
        for tt in ("incr", "cum"):
            for fmt, rs in (("incr", recs), ("cum", cums)):
                tri = build(data(rs), tt, fmt, "tabular", **kw)
                compare(tri, tt, "%s records, columns %s" % (fmt, names))
            plain = trikit.totri(mk.tabular(recs), tri_type=tt)
            for what, f in COMMON[:1] if case.get("few") else WORDVIEWS[tt]:
                obs.step()
                x, y = canon(f(plain)), canon(f(tri))
                obs.check(same(x, y), lambda: "%s of a %s triangle with columns %s is %s, expected %s" % (what, tt, names, y, x))
        if not case.get("few"):
            x = plain.boot_cl(sims=3, random_state=7), plain.mack_cl()
            y = tri.boot_cl(sims=3, random_state=7), tri.mack_cl()
            obs.check(same(canon(x[0].summary), canon(y[0].summary)), "boot_cl differs with columns %s" % (names,))
            obs.check(same(canon(x[1].summary), canon(y[1].summary)), "mack_cl differs with columns %s" % (names,))
            obs.check(same(canon(list(x[1].cy_effects_test())), canon(list(y[1].cy_effects_test()))), "cy_effects_test differs with columns %s" % (names,))
    elif case["k"] == "derived":
        names = NAMESETS[case["names"]]
        kw = dict(zip(("origin", "dev", "value"), names))
        for tt in ("incr", "cum"):
            a = trikit.totri(mk.tabular(recs), tri_type=tt)
            b = trikit.totri(mk.tabular(recs, "decoy", names), tri_type=tt, **kw)
            for what, f in VIEWS[tt]:
                obs.step()
                x, y = canon(f(a)), canon(f(b))
                obs.check(same(x, y), lambda: "%s of a %s triangle with columns %s is %s, expected %s" % (what, tt, names, y, x))
            t = b.to_tbl()
            obs.check(list(t.columns) == list(names), "to_tbl columns %s, expected %s" % (list(t.columns), names))
            got = [(int(r[0]), int(r[1]), r[2]) for r in t.to_numpy().tolist()]
            obs.check(same(canon(got), canon(ref.tbl(want[tt]))), "to_tbl with columns %s" % (names,))
            obs.check([list(b.latest.columns)] == [["origin", "dev", "latest"]], "latest columns %s" % list(b.latest.columns))
        if case["shape"] == [4, 4]:
            x = trikit.totri(mk.tabular(recs)).boot_cl(sims=5, random_state=7).summary
            y = trikit.totri(mk.tabular(recs, "decoy", names), **kw).boot_cl(sims=5, random_state=7).summary
            obs.check(same(canon(x), canon(y)), "boot_cl differs with columns %s" % (names,))
            x = trikit.totri(mk.tabular(recs)).mack_cl().summary
            y = trikit.totri(mk.tabular(recs, "decoy", names), **kw).mack_cl().summary
            obs.check(same(canon(x), canon(y)), "mack_cl differs with columns %s" % (names,))
    obs.trace()


COMMON = [("latest", lambda t: t.latest), ("latest_by_origin", lambda t: t.latest_by_origin),
          ("latest_by_devp", lambda t: t.latest_by_devp), ("maturity", lambda t: t.maturity),
          ("triind", lambda t: t.triind), ("rlvi", lambda t: t.rlvi), ("clvi", lambda t: t.clvi),
          ("origins", lambda t: list(t.origins)), ("devp", lambda t: list(t.devp)),
          ("to_tbl values", lambda t: t.to_tbl().to_numpy()), ("to_tbl(dropna=False)", lambda t: t.to_tbl(dropna=False).to_numpy())]
VIEWS = {
    "incr": COMMON + [("to_cum", lambda t: t.to_cum()), ("to_cum().latest", lambda t: t.to_cum().latest)],
    "cum": COMMON + [("to_incr", lambda t: t.to_incr()), ("a2a", lambda t: t.a2a), ("a2a_avgs", lambda t: t.a2a_avgs()),
                     ("diagonal", lambda t: t.diagonal() if t.shape[0] == t.shape[1] else 0),
                     ("base_cl", lambda t: t.base_cl(tail=1.1).summary), ("trisqrd", lambda t: t.base_cl(tail=1.1).trisqrd)],
}
WORDVIEWS = {
    "incr": [v for v in VIEWS["incr"] if v[0] in ("latest", "latest_by_devp", "to_tbl values", "to_cum", "to_cum().latest")],
    "cum": [v for v in VIEWS["cum"] if v[0] in ("latest", "latest_by_origin", "to_tbl(dropna=False)", "to_incr", "diagonal", "trisqrd")],
}
