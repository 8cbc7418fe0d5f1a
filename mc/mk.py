"""Builds inputs of the code under test from model records [(origin, dev, amount or None)]."""
import numpy as np
import pandas as pd
import trikit
import ref
import space

NAMES = ("origin", "dev", "value")


def nan(v):
    return np.nan if v is None else v


def tabular(recs, form="plain", names=NAMES):
    o, d, v = names
    df = pd.DataFrame({o: [r[0] for r in recs], d: [r[1] for r in recs], v: [nan(r[2]) for r in recs]})
    if form == "extra":
        df.insert(0, "lob", ["x%d" % (k % 2) for k in range(len(df))])
        df["paid"] = df[v] * 3 + 1
    elif form == "decoy":                # columns with the default names hold something else
        for k, nm in enumerate(NAMES):
            if nm not in df.columns:
                df.insert(k, nm, [17 + (5 * i + k) % 3 for i in range(len(df))])
    elif form == "index":
        df.index = [7 * (k + 3) % 11 for k in range(len(df))]
    elif form == "strindex":
        df.index = pd.Index(["r%d" % (k // 2) for k in range(len(df))], name="rec")
    elif form == "small":
        fits = lambda c, t: t if df[c].abs().max() < np.iinfo(t).max else "int64"
        df = df.astype({o: fits(o, "int32"), d: fits(d, "int16"), v: float})
    elif form == "colorder":
        df = df[[v, d, o]]
    elif form != "plain":
        raise KeyError(form)
    return df


def cum_records(recs):
    """The cumulative amount of every cell that has an amount."""
    cells = ref.cells_of(recs)
    out = []
    for o, d in sorted(cells):
        out.append((o, d, sum(v for (a, b), v in cells.items() if a == o and b <= d)))
    return out


def shaped(recs, form="plain"):
    cells = ref.cells_of(recs)
    rows, cols = ref.labels_of(cells)
    df = pd.DataFrame([[nan(cells.get((o, d))) for d in cols] for o in rows], index=rows, columns=cols, dtype=float)
    if form == "named":
        df.index.name = "accident_year"
    elif form == "colname":
        df.columns.name = "age"
    elif form == "both":
        df.index.name, df.columns.name = "origin", "dev"
    elif form == "dev":
        df.index.name = "dev"
    elif form == "strcols":
        df.columns = [str(c) for c in cols]
    elif form == "reversed":
        df = df.iloc[::-1]
    elif form == "emptyrow":            # an origin and a period without any amount
        df.loc[max(rows) + 1] = np.nan
        df[max(cols) + 1] = np.nan
    elif form != "plain":
        raise KeyError(form)
    return df


def recs_of(case):
    """Records of a case {"data"/"recs"/"ratios"/"shape", "scheme", "order", "variant", "scale"}."""
    if "data" in case:
        sc = case.get("scale", 1)
        return [(o, d, v if v is None else v * sc) for o, d, v in space.reorder(dataset(case["data"]), case.get("order", "sorted"))]
    if "ratios" in case:
        rs = increments_of_ratios(case["starts"], case["ratios"])
    elif "recs" in case:
        rs = case["recs"]
    elif "shape" in case:
        n, m = case["shape"]
        sc = case.get("scale", 1.0)
        rs = [[i, j, float("%.9g" % (space.amount(i, j, case.get("variant", 0)) * sc))] for i, j in space.grid(n, m, case.get("kind", "runoff"))]
    else:
        raise KeyError("no amounts in case")
    n = 1 + max(r[0] for r in rs)
    m = 1 + max(r[1] for r in rs)
    o, d = space.labels(case.get("scheme", "year"), n, m)
    return space.reorder([(o[i], d[j], v) for i, j, v in rs], case.get("order", "sorted"))


def cumtri(case):
    """(CumTriangle, model triangle) of a case."""
    recs = recs_of(case)
    return trikit.totri(tabular(recs)), ref.cum_tri(recs)


def increments_of_ratios(starts, ratios):
    """Records of a cumulative path per origin: start amount and successive link ratios."""
    out = []
    for i, (s, rs) in enumerate(zip(starts, ratios)):
        out.append([i, 0, float(s)])
        c = float(s)
        for j, r in enumerate(rs):
            out.append([i, j + 1, c * r - c])
            c *= r
    return out


_DATA = {}


def dataset(name):
    """Records of a packaged sample dataset, read without trikit."""
    if name not in _DATA:
        import csv
        import os
        import trikit.datasets
        path = os.path.join(os.path.dirname(trikit.datasets.__file__), FILES[name])
        with open(path, newline="", encoding="utf-8-sig") as f:
            rows = list(csv.DictReader(f))
        _DATA[name] = [(int(r["origin"]), int(r["dev"]), None if r["value"] in ("", "NA") else float(r["value"])) for r in rows]
    return _DATA[name]


FILES = {"raa": "RAA.csv", "ta83": "TaylorAshe83.csv", "amw09": "amw09.csv", "autoliab": "AutoLiabMedical.csv",
         "glre": "GLReinsurance2004.csv", "singinjury": "SingaporeInjury.csv", "singproperty": "SingaporeProperty.csv"}
