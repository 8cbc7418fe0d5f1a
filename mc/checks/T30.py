"""T30: triangles are DataFrames: every inherited operation works on them, including storing and restoring them."""
import io
import itertools
import os
import pickle
import tempfile
import numpy as np
import pandas as pd
import trikit
import mk
import ops
import space
from cmp import same, canon

TRIS = {
    "t4": {"shape": [4, 4], "scheme": "year"}, "t5": {"shape": [5, 5], "scheme": "month"},
    "t6": {"shape": [6, 6], "scheme": "gap", "variant": 2}, "rect": {"shape": [3, 5], "scheme": "wide"},
    "neg": {"recs": [[i, j, -v if (i, j) in ((0, 2), (1, 3)) else v] for (i, j), v in sorted(space.runoff(5).items())], "scheme": "year"},
    "hole": {"recs": [[i, j, None if (i, j) == (1, 1) else v] for (i, j), v in sorted(space.runoff(5).items())], "scheme": "one"},
}
NAMED = {"t4": ("accident_year", "age", "paid")}

# operations inherited from DataFrame, on a triangle or on a plain frame with the same cells
INHERITED = {
    "shape": lambda d: (d.shape, d.size, d.ndim, d.empty, len(d), d.dtypes.astype(str).tolist()),
    "axes": lambda d: (list(d.index), list(d.columns), d.index.name, d.columns.name),
    "iloc": lambda d: [d.iloc[0], d.iloc[:, 0], d.iloc[:2, :2], d.iloc[-1, 0], d.iloc[::-1], d.iloc[[0, 2], [1]]],
    "loc": lambda d: [d.loc[d.index[0]], d.loc[:, d.columns[1]], d.loc[d.index[1]:, :d.columns[1]], d.loc[d[d.columns[0]] > 0]],
    "at": lambda d: [d.at[d.index[0], d.columns[0]], d.iat[0, 1]],
    "getitem": lambda d: [d[d.columns[0]], d[list(d.columns[:2])], d[d.columns[0]].tolist(), d.get(d.columns[1])],
    "head": lambda d: [d.head(2), d.tail(1), d.nlargest(2, d.columns[0]), d.sample(2, random_state=1)],
    "arith": lambda d: [d + 1, d * d, 2 - d, d / d.sum(), -d, abs(d), d ** 2, d // 7, d % 7, d.add(d, fill_value=0), d.sub(5), d.mul(2), d.div(4)],
    "compare": lambda d: [d > 100, d == d, d.eq(d), d.ne(1), d.isna(), d.notna(), d.equals(pd.DataFrame(d))],
    "reduce": lambda d: [d.sum(), d.sum(axis=1), d.mean(), d.median(axis=1), d.min(), d.max(axis=1), d.std(), d.var(), d.count(), d.prod(), d.quantile(.3),
                         d.idxmax(), d.any(), d.all(), d.nunique(), d.sem(), d.skew()],
    "cumulate": lambda d: [d.cumsum(axis=1), d.cumprod(), d.cummax(), d.diff(axis=1), d.shift(1, axis=1), d.pct_change(axis=1, fill_method=None), d.rank()],
    "missing": lambda d: [d.fillna(0), d.dropna(), d.ffill(axis=1), d.bfill(), d.interpolate(axis=1), d.where(d > 50), d.mask(d > 50), d.replace(np.nan, -1),
                          d.first_valid_index(), d.last_valid_index()],
    "reshape": lambda d: [d.T, d.stack(), d.melt(), d.reset_index(), d.unstack(), d.transpose().sum(), d.squeeze(), d.pivot_table(columns=d.columns[0])
                          if False else d.swapaxes(0, 1) if False else d.T.T],
    "select": lambda d: [d.filter(items=[d.columns[0]]), d.drop(columns=[d.columns[0]]), d.drop(index=[d.index[0]]), d.reindex(list(d.index[::-1])),
                         d.query("index > %d" % d.index[0]), d.truncate(before=d.index[1]), d.take([0]), d.isin([1.0]), d.xs(d.index[0])],
    "sort": lambda d: [d.sort_values(d.columns[0]), d.sort_index(ascending=False), d.sort_index(axis=1, ascending=False)],
    "apply": lambda d: [d.apply(np.sum), d.apply(lambda r: r.max(), axis=1), d.map(lambda v: v * 2), d.agg(["sum", "min"]), d.transform(np.sqrt), d.pipe(len)],
    "convert": lambda d: [d.to_numpy(), d.values, d.to_dict(), d.to_dict("records"), d.to_json(), d.to_csv(), d.to_records().tolist(), np.asarray(d),
                          d.round(0), d.clip(0, 500), d.astype(float), d.convert_dtypes().astype(float), d.to_markdown() if False else None],
    "iterate": lambda d: [list(d), [(k, v.tolist()) for k, v in d.items()], [(k, v.tolist()) for k, v in d.iterrows()], [tuple(x) for x in d.itertuples()]],
    "join": lambda d: [pd.concat([d, d]), d.join(d.add_suffix("b")), d.merge(d, left_index=True, right_index=True), d.combine_first(d * 0), d.assign(x=1.0)],
    "group": lambda d: [d.groupby(np.arange(len(d)) % 2).sum(), d.groupby(level=0).first(), d.rolling(2).sum(), d.expanding().sum(), d.T.groupby(np.arange(d.shape[1]) % 2).mean()],
    "stats": lambda d: [d.describe(), d.corr(min_periods=2), d.cov(), d.corrwith(d * 2), d.dot(np.ones(d.shape[1])), d @ np.ones(d.shape[1])],
    "copy": lambda d: [d.copy(), d.copy(deep=False), pd.DataFrame(d), pd.DataFrame(d, copy=True)],
    "rename": lambda d: [d.rename(columns={d.columns[0]: "first"}), d.rename_axis("x"), d.add_prefix("p"), d.set_axis(range(len(d))), d.set_index(d.columns[0])],
    "numpy": lambda d: [np.log1p(abs(d)), np.sqrt(abs(d)), np.nansum(d), np.isnan(d).sum().sum(), np.exp(d / 1e5), np.maximum(d, 3)],
    "text": lambda d: [d.to_html(), d.to_latex() if False else None, d.to_string()],
    "memory": lambda d: [d.memory_usage().tolist(), hash(tuple(pd.util.hash_pandas_object(d).tolist()))],
    "bool": lambda d: [d.columns[0] in d, 99999 in d, d.keys().tolist(), d.index.is_monotonic_increasing, d.columns.is_unique],
}
PREPS = {
    "new": lambda t: None,
    "views": lambda t: [getattr(t, n) for n in ("latest", "triind", "a2a", "a2aind", "maturity", "clvi", "a2a_lvi")],
    "excluded": lambda t: exclude(t, 0, 1),
    "used": lambda t: (exclude(t, 1, 0), t.base_cl(), t.a2a_avgs(), t.to_incr(), t.latest_by_devp),
}
TEXT = [n for n in ops.TEXT if n not in ("totri", "totri-incr", "totri-fromcum")]


def exclude(t, i, j):
    t.a2aind
    t.a2aind = (t.index[i], t.columns[j], 0)


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "inherited operations": "%d groups (about 150 operations) on cumulative and incremental triangles, compared with a plain DataFrame of the same cells" % len(INHERITED),
        "before": "new, views read, ratio excluded, used for estimates",
        "storing": "pickle protocols 0-5, to_pickle/read_pickle, in %s; then every operation (%d) on the restored one, exclusion on either one; results of all "
                   "estimators likewise" % ("every state" if t else "every state (protocols in rotation)", len(TEXT)),
        "triangles": "%d: run-off 4..6, a rectangle, a hole, negative increments, other column names" % len(TRIS),
    }


def cases(tier):
    t = tier == "thorough"
    for tri in TRIS:
        for tt in ("cum", "incr"):
            for prep in PREPS if tt == "cum" else ("new",):
                if t or prep != "used" or tri == "t5":
                    yield {"k": "inherited", "tri": tri, "tt": tt, "prep": prep}
    k = 0
    for tri in TRIS if t else ("t4", "t5", "rect"):
        for prep in PREPS:
            for how in range(7):
                k += 1
                if t or how == (2 * k + k // 7) % 7 or (tri == "t5" and how in (4, 6)):
                    yield {"k": "store", "tri": tri, "prep": prep, "how": how}
        for how in range(7):
            yield {"k": "incr", "tri": tri, "how": how}
    for tri in ("t4", "t5", "neg") if t else ("t5",):
        for r in ("base", "mack", "boot", "pboot"):
            for how in range(6):
                yield {"k": "result", "tri": tri, "r": r, "how": how}


def build(tri, tt="cum"):
    names = NAMED.get(tri)
    recs = mk.recs_of(TRIS[tri])
    if names and tt == "cum":
        return trikit.totri(mk.tabular(recs, names=names), tri_type=tt, origin=names[0], dev=names[1], value=names[2])
    return trikit.totri(mk.tabular(recs), tri_type=tt)


def restore(x, how):
    if how < 6:
        return pickle.loads(pickle.dumps(x, protocol=how))
    with tempfile.TemporaryDirectory() as d:
        x.to_pickle(os.path.join(d, "t.pkl"))
        return pd.read_pickle(os.path.join(d, "t.pkl"))


def flat(x):
    """Values of a result with the kinds of pandas objects, not their subclass."""
    if isinstance(x, pd.DataFrame):
        return ("frame", canon(pd.DataFrame(x)), tuple(str(d) for d in x.dtypes))
    if isinstance(x, (list, tuple)):
        return tuple(flat(v) for v in x)
    return canon(x)


class Holder(ops.World):
    """A world around a given triangle."""
    def __init__(self, recs, tri):
        super().__init__(recs)
        self.tri = tri


def answers(tri, name):
    rect = name == "rect"
    w = Holder(mk.recs_of(TRIS[name]), tri)
    return {n: ops.snap(ops.outcome(n, w)) for n in TEXT if not (rect and ops.BY[n][2])}


def run(case, obs):
    if case["k"] == "inherited":
        tri = build(case["tri"], case["tt"])
        plain = pd.DataFrame({c: tri[c].tolist() for c in tri.columns}, index=list(tri.index))
        PREPS[case["prep"]](tri)
        before = ops.snap(tri)
        obs.check(isinstance(tri, pd.DataFrame), "a triangle is no DataFrame")
        for n, f in INHERITED.items():
            want = f(plain)
            try:
                got = f(tri)
            except Exception as e:
                obs.fail("%s on a triangle raises %s: %s" % (n, type(e).__name__, e))
                continue
            obs.step()
            obs.state(case["tri"], case["tt"], case["prep"], n)
            if n == "text":            # printing is overridden
                got[2] = want[2] = None
            obs.check(same(flat(got), flat(want), 1e4), lambda: "%s on a triangle gives %s, on a DataFrame %s" % (n, str(flat(got))[:500], str(flat(want))[:500]))
            obs.check(ops.snap(tri) == before, "%s changes the triangle" % n)
        with tempfile.TemporaryDirectory() as d:
            tri.to_csv(os.path.join(d, "t.csv"))
            back = pd.read_csv(os.path.join(d, "t.csv"), index_col=0)
            obs.check(same(flat(pd.DataFrame(tri).set_axis([str(c) for c in tri.columns], axis=1)), flat(back), 1e4), "to_csv writes other cells")
    elif case["k"] == "store":
        tri = build(case["tri"])
        PREPS[case["prep"]](tri)
        back = restore(tri, case["how"])
        obs.check(type(back) is type(tri) and ops.snap(back) == ops.snap(tri), "restored triangle differs: %s" % str(ops.snap(back))[:300])
        fresh = build(case["tri"])
        PREPS[case["prep"]](fresh)
        want = answers(fresh, case["tri"])
        for what, t in (("restored", back), ("original", tri)):
            got = answers(t, case["tri"])
            for n in want:
                obs.step()
                obs.state(case, what, n)
                if not obs.check(same(got[n], want[n], 1e4), lambda: "%s triangle: %s gives %s, expected %s" % (what, n, str(got[n])[:300], str(want[n])[:300])):
                    return
        # exclusions on one do not reach the other
        again = restore(back, case["how"])
        exclude(again, 0, 0)
        obs.check(same(ops.snap(back.base_cl()), want["x"] if "x" in want else ops.snap(fresh.base_cl()), 1e4), "an exclusion on a restored triangle reaches the original")
        exclude(fresh, 0, 0)
        obs.check(same(ops.snap(again.base_cl()), ops.snap(fresh.base_cl()), 1e4), "an exclusion on a restored triangle is not made")
        obs.check(flat(again.to_tbl()) == flat(fresh.to_tbl()) and list(again.to_tbl().columns) == list(fresh.to_tbl().columns), "to_tbl of a restored triangle differs")
    elif case["k"] == "incr":
        tri = build(case["tri"], "incr")
        back = restore(tri, case["how"])
        for n in ("latest", "triind", "maturity", "clvi", "rlvi", "latest_by_origin", "nbr_cells", "devp", "origins"):
            obs.step()
            obs.check(ops.snap(getattr(back, n)) == ops.snap(getattr(tri, n)), "%s of a restored incremental triangle differs" % n)
        obs.state(case)
        obs.check(ops.snap(back.to_cum()) == ops.snap(tri.to_cum()) and str(back) == str(tri), "a restored incremental triangle differs")
    else:
        w = ops.World(mk.recs_of(TRIS[case["tri"]]))
        r = w.get(case["r"])
        back = pickle.loads(pickle.dumps(r, protocol=case["how"]))
        obs.state(case)
        obs.step()
        obs.check(same(ops.snap(back), ops.snap(r), 1e4), "restored result differs")
        obs.check(str(back) == str(r), "restored result prints differently")
        obs.check(ops.snap(back.tri.latest) == ops.snap(r.tri.latest), "triangle of a restored result differs")
        obs.check(same(ops.snap(back.tri.base_cl()), ops.snap(r.tri.base_cl()), 1e4), "triangle of a restored result gives another estimate")
        if case["r"] != "base":
            for q in ([.9, .5], .3):
                obs.step()
                obs.check(ops.snap(back.get_quantiles(q)) == ops.snap(r.get_quantiles(q)), "quantiles of a restored result differ")
        if case["r"] == "mack":
            np.random.seed(17)
            a = ops.snap(back.devp_corr_test()), ops.snap(back.cy_effects_test())
            np.random.seed(17)
            obs.check(a == (ops.snap(r.devp_corr_test()), ops.snap(r.cy_effects_test())), "tests of a restored result differ")
        if case["r"] in ("boot", "pboot"):
            obs.check(ops.snap(back.origin_dist) == ops.snap(r.origin_dist) and ops.snap(back.residuals_detail) == ops.snap(r.residuals_detail), "details of a restored result differ")
    obs.trace()
