"""T31: cells and estimates depend on the recorded labels and amounts, not on how the data holds them."""
import decimal
import itertools
import re
import numpy as np
import pandas as pd
import trikit
import mk
import ops
import ref
import space
from cmp import canon, same, tri_diff, frame

LABELS = ("int64", "int32", "int16", "uint16", "uint64", "float64", "float32", "object", "objectfloat", "Int64", "Int16", "UInt32", "Float64", "category", "categoryfloat",
          "categoryunused", "ordered")
VALUES = ("float64", "float32", "int64", "int16", "uint16", "object", "objectnone", "Int64", "Float64", "category", "decimal", "sparse", "fraction")
FLOATS = ("float64", "float32", "objectfloat", "Float64", "categoryfloat")
KINDS = ("runoff", "full")
NAMES = [n for n in ops.TEXT if n not in ("totri", "totri-incr", "totri-fromcum")]
PRINTED = ("str",)


def records(which):
    n, m = {"year5": (5, 5), "gap4": (4, 4), "wide": (3, 5), "missing": (5, 5), "dup": (4, 4), "one6": (6, 6)}[which]
    o, d = space.labels({"year5": "year", "gap4": "gap", "wide": "year", "missing": "year", "dup": "one", "one6": "one"}[which], n, m)
    out = []
    for i, j in space.grid(n, m, "runoff"):
        v = float(round(space.amount(i, j, 0) / 4) * 4)
        if which == "missing" and (i, j) == (1, 1):
            v = None
        out.append((o[i], d[j], v))
        if which == "dup" and (i + j) % 2:
            out.append((o[i], d[j], 8.0))
    return out


SETS = ("year5", "gap4", "wide", "missing", "dup", "one6")


def as_labels(xs, dt):
    if dt == "objectfloat":
        return pd.Series([float(x) for x in xs], dtype=object)
    if dt == "categoryfloat":
        return pd.Series([float(x) for x in xs]).astype("category")
    if dt == "categoryunused":          # categories in another order, some without records
        return pd.Series(pd.Categorical(xs, categories=sorted(set(xs) | {min(xs) + 50, max(xs) + 1}, reverse=True)))
    if dt == "ordered":
        return pd.Series(pd.Categorical(xs, categories=sorted(set(xs), reverse=True), ordered=True))
    if dt == "object":
        return pd.Series([int(x) for x in xs], dtype=object)
    return pd.Series(xs).astype(dt)


def as_values(xs, dt):
    some = [x for x in xs if x is not None]
    if dt == "decimal":
        return pd.Series([None if x is None else decimal.Decimal(int(x)) for x in xs], dtype=object)
    if dt == "fraction":
        import fractions
        return pd.Series([None if x is None else fractions.Fraction(int(x)) for x in xs], dtype=object)
    if dt == "objectnone":
        return pd.Series(xs, dtype=object)
    s = pd.Series([np.nan if x is None else x for x in xs], dtype=float)
    if dt == "sparse":
        return pd.Series(pd.arrays.SparseArray(s))
    if dt == "object":
        return s.astype(object)
    if len(some) < len(xs) and dt in ("int64", "int16", "uint16"):
        return s.astype(dt[0].upper() + dt[1:] if dt[0] == "i" else "UInt16")   # the nullable type of that name
    return s.astype(dt)


LAYOUTS = {
    "sameindex": lambda b: b.set_axis([0] * len(b)),
    "multiindex": lambda b: b.set_index(["origin", "dev"], drop=False),
    "dateindex": lambda b: b.set_axis(pd.date_range("2020", periods=len(b))[::-1]),
    "nanindex": lambda b: b.set_axis([np.nan] * len(b)),
    "index-origin": lambda b: b.rename_axis("origin"),
    "index-dev": lambda b: b.rename_axis("dev"),
    "index-value": lambda b: b.rename_axis("value"),
    "columns-origin": lambda b: b.rename_axis(columns="origin"),
    "extra": lambda b: b.assign(x=[[1]] * len(b), y=None, z=pd.Timestamp("2020"), incr=5, cum=3, cumval=1, index=4, level_0=2, variable=7),
    "columnorder": lambda b: b[["value", "dev", "origin"]],
    "subclass": lambda b: Sub(b),
    "attrs": lambda b: attrs(b),
    "nodup": lambda b: b.set_flags(allows_duplicate_labels=False),
    "readonly": lambda b: readonly(b),
    "strided": lambda b: pd.DataFrame(np.repeat(b.to_numpy(dtype=float), 2, axis=0), columns=b.columns)[::2],
    "objectcols": lambda b: pd.DataFrame(b.to_numpy(dtype=object), columns=b.columns),
    "sliced": lambda b: pd.concat([b, b])[:len(b)],
    "masked": lambda b: pd.concat([b, b])[[True] * len(b) + [False] * len(b)],
    "manyblocks": lambda b: pd.concat([b[[c]] for c in b.columns], axis=1),
    "reversed": lambda b: b[::-1],
}


class Sub(pd.DataFrame):
    @property
    def _constructor(self):
        return Sub


def attrs(b):
    b = b.copy()
    b.attrs["x"] = [1]
    return b


def readonly(b):
    a = b.to_numpy(dtype=float).copy()
    a.flags.writeable = False
    return pd.DataFrame(a, columns=b.columns, copy=False)


TABLE_VALUES = ("float64", "float32", "object", "objectnone", "Float64", "Int64", "decimal", "fortran", "readonly", "mixed")
TABLE_LABELS = ("int64", "int16", "uint64", "float64", "object", "Int64", "category", "str", "string")


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "label types": list(LABELS), "amount types": list(VALUES),
        "tabular": "%s of origin, dev and amount types x cumulative/incremental data x cumulative/incremental triangle, %d record sets (gaps, missing, duplicates); "
                   "every operation (%d) on %s" % ("all triples" if t else "all pairs", len(SETS), len(NAMES), "every pair of types" if t else "every single type"),
        "layouts": "%d (index, column order, extra columns, memory, subclass, attributes)" % len(LAYOUTS),
        "tables": "%d cell types x %d row label types x %d column label types, every order of %d rows and %d columns (one at a time%s)" % (
            len(TABLE_VALUES), len(TABLE_LABELS), len(TABLE_LABELS), 5 if t else 4, 5 if t else 4, ", and all pairs for 4 x 4" if t else ""),
    }


def cases(tier):
    t = tier == "thorough"
    seen = set()
    for a in LABELS:
        for b in LABELS:
            for c in VALUES:
                if t or (a == "int64") + (b == "int64") + (c == "float64") >= 1:
                    rs = SETS if t and (a == "int64") + (b == "int64") + (c == "float64") >= 2 else (SETS[(LABELS.index(a) + 2 * LABELS.index(b) + VALUES.index(c)) % len(SETS)],)
                    for r in rs:
                        yield {"k": "types", "o": a, "d": b, "v": c, "set": r}
    for a in LABELS:
        for b in LABELS:
            for c in VALUES:
                odd = 3 - ((a == "int64") + (b == "int64") + (c == "float64"))
                if odd == 1 or (t and odd == 2):
                    yield {"k": "derived", "o": a, "d": b, "v": c, "set": "year5" if t or c == "float64" else "missing"}
    for name in LAYOUTS:
        for r in SETS:
            yield {"k": "layout", "layout": name, "set": r}
    for v in TABLE_VALUES:
        for a in TABLE_LABELS:
            for b in TABLE_LABELS:
                if t or v == "float64" or (a == "int64") + (b == "int64") >= 1:
                    yield {"k": "table", "v": v, "r": a, "c": b, "set": SETS[(TABLE_VALUES.index(v) + TABLE_LABELS.index(a) + TABLE_LABELS.index(b)) % 4]}
    n = 5 if t else 4
    s = "year5" if t else "gap4"
    ident = list(range(n))
    for p in itertools.permutations(range(n)):
        yield {"k": "order", "rows": list(p), "cols": ident, "set": s}
        yield {"k": "order", "rows": ident, "cols": list(p), "set": s}
        yield {"k": "order", "rows": list(p), "cols": list(p), "set": s}
    if t:
        for p in itertools.permutations(range(4)):
            for q in itertools.permutations(range(4)):
                yield {"k": "order", "rows": list(p), "cols": list(q), "set": "gap4"}


def wanted(recs, tt):
    return ref.cum_tri(recs) if tt == "cum" else ref.incr_tri(recs)


def same_cells(obs, got, recs, tt, what):
    obs.step()
    d = tri_diff(got, wanted(recs, tt), what)
    obs.check(d is None, lambda: d)
    obs.check(all(str(x) == "float64" for x in got.dtypes), "%s: cells of types %s" % (what, sorted(set(map(str, got.dtypes)))))


FLOAT = re.compile(r"(?<![\d.])(\d+)\.0(?![\d.])")


def norm(x):
    """Content without types of labels; labels written in text as whole numbers."""
    if isinstance(x, pd.DataFrame):
        return norm(canon(pd.DataFrame(x)))
    if type(x).__name__.endswith("Result"):
        return norm([(k, v) for k, v in sorted(vars(x).items()) if not k.startswith("_") and k != "tri" and not callable(v)])
    if isinstance(x, pd.Series) and x.size and hasattr(x.iloc[-1], "ppf"):
        return norm([list(x.index), [[r.mean(), r.std(), r.ppf(.3)] for r in x]])
    if isinstance(x, str):
        return FLOAT.sub(r"\1", x)
    if isinstance(x, (list, tuple)):
        return tuple(norm(v) for v in x)
    y = canon(x)
    return norm(y) if isinstance(y, tuple) else norm(y) if isinstance(y, str) else y


class Holder(ops.World):
    def __init__(self, recs, tri):
        super().__init__(recs)
        self.tri = tri


_BASE = {}


def answers(recs, tri):
    w = Holder(recs, tri)
    out = {}
    for n in NAMES:
        if n.endswith("str"):
            continue
        try:
            out[n] = norm(ops.outcome(n, w))
        except Exception as e:
            out[n] = "raises %s" % type(e).__name__
    return out


def base(which):
    if which not in _BASE:
        recs = records(which)
        _BASE[which] = answers(recs, trikit.totri(mk.tabular(recs)))
    return _BASE[which]


def frame_of(recs, o, d, v):
    return pd.DataFrame({"origin": as_labels([r[0] for r in recs], o), "dev": as_labels([r[1] for r in recs], d), "value": as_values([r[2] for r in recs], v)})


def run(case, obs):
    recs = records(case["set"])
    if case["k"] == "types":
        cum = mk.cum_records(recs)
        for fmt, src in (("incr", recs), ("cum", cum)):
            df = frame_of(src, case["o"], case["d"], case["v"])
            kept = df.copy()
            for tt in ("cum", "incr"):
                what = "%s data with origin %s, dev %s, amounts %s as %s triangle" % (fmt, case["o"], case["d"], case["v"], tt)
                try:
                    got = trikit.totri(df, tri_type=tt, data_format=fmt)
                except Exception as e:
                    obs.fail("%s raises %s: %s" % (what, type(e).__name__, e))
                    continue
                obs.state(case, fmt, tt)
                same_cells(obs, got, recs, tt, what)
                if fmt == "incr" and (tt == "incr" or case["set"] not in ("missing", "gap4")):
                    # the class itself (it does not complete cumulative amounts)
                    cls = trikit.triangle.CumTriangle if tt == "cum" else trikit.triangle.IncrTriangle
                    same_cells(obs, cls(df, origin="origin", dev="dev", value="value"), recs, tt, cls.__name__ + " of " + what)
                obs.check(df.equals(kept) and list(df.dtypes) == list(kept.dtypes), "%s changes the data" % what)
    elif case["k"] == "derived":
        want = base(case["set"])
        got = answers(recs, trikit.totri(frame_of(recs, case["o"], case["d"], case["v"])))
        for n in want:
            obs.step()
            obs.state(case, n)
            obs.check(same(got[n], want[n], 1e4), lambda: "origin %s, dev %s, amounts %s: %s gives %s, with plain numbers %s" % (
                case["o"], case["d"], case["v"], n, str(got[n])[:400], str(want[n])[:400]))
    elif case["k"] == "layout":
        for fmt, src in (("incr", recs), ("cum", mk.cum_records(recs))):
            df = LAYOUTS[case["layout"]](mk.tabular(src))
            for tt in ("cum", "incr"):
                obs.state(case, fmt, tt)
                got = trikit.totri(df, tri_type=tt, data_format=fmt)
                same_cells(obs, got, recs, tt, "%s data, layout %s, as %s triangle" % (fmt, case["layout"], tt))
        got = answers(recs, trikit.totri(LAYOUTS[case["layout"]](mk.tabular(recs))))
        want = base(case["set"])
        for n in want:
            obs.step()
            obs.check(same(got[n], want[n], 1e4), lambda: "layout %s: %s gives %s, with a plain frame %s" % (case["layout"], n, str(got[n])[:400], str(want[n])[:400]))
    else:
        for fmt, src in (("incr", recs), ("cum", mk.cum_records(recs))):
            rows, cols, m = ref.incr_tri(src)      # the amounts as given, cells without one left out
            if case["k"] == "order":
                p, q = case["rows"], case["cols"]
                df = pd.DataFrame([[mk.nan(m[i][j]) for j in q] for i in p], index=[rows[i] for i in p], columns=[cols[j] for j in q], dtype=float)
            else:
                df = table(rows, cols, m, case)
            for tt in ("cum", "incr"):
                what = "%s table %s as %s triangle" % (fmt, {x: case[x] for x in case if x not in ("k", "set")}, tt)
                try:
                    got = trikit.totri(df, tri_type=tt, data_format=fmt, data_shape="triangle")
                except Exception as e:
                    obs.fail("%s raises %s: %s" % (what, type(e).__name__, e))
                    continue
                obs.state(case, fmt, tt)
                same_cells(obs, got, recs, tt, what)
    obs.trace()


def table(rows, cols, m, case):
    v = case["v"]
    cells = [[mk.nan(x) for x in r] for r in m]
    if v == "decimal":
        cells = [[None if x is None else decimal.Decimal(int(x)) for x in r] for r in m]
    elif v == "objectnone":
        cells = m
    if v in ("decimal", "objectnone", "object"):
        df = pd.DataFrame(cells, dtype=object)
        if v == "objectnone":
            df = df.astype(object).where(df.notna(), None)
    elif v == "fortran":
        df = pd.DataFrame(np.asfortranarray(np.array(cells, dtype=float)), copy=False)
    elif v == "readonly":
        a = np.array(cells, dtype=float)
        a.flags.writeable = False
        df = pd.DataFrame(a, copy=False)
    else:
        df = pd.DataFrame(cells, dtype=float)
        if v == "mixed":
            for j in range(0, df.shape[1], 2):
                df[j] = df[j].astype("Int64" if j % 4 else object)
        else:
            df = df.astype(v)
    df.index = pd.Index(rows).astype(case["r"])
    df.columns = pd.Index(cols).astype(case["c"])
    return df
