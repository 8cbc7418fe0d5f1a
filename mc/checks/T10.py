"""T10: estimates do not depend on labels or currency unit."""
import itertools
import pandas as pd
import trikit
import ref
import mk
import space
from cmp import canon, same, size, isnan, close

SCALES = [0.01, 0.5, 4.0, 10.0, 1024.0, 3e6, 1e-6]
EXTRA = {"big": (202001, 1000), "neg": (-2, 1), "huge": (10 ** 9, 10 ** 6), "same": (1, 1)}


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "labels": "every ascending choice of 4 origin labels out of 0..%d %s of 4 periods out of 0..%d, 8 label schemes and %d more "
                  "(six-digit, negative, 10^9, origins equal to periods) for 3-9 periods" % (6, "times every choice" if t else "and every choice", 6, len(EXTRA)),
        "scales": str(SCALES), "estimators": "base_cl for every a2a_avgs row (quick: 5 rows, every one in 1 of 20 cases) and for given factors, mack_cl for alpha 0, 1, 2 x norm, lognorm, boot_cl (labels only) both residual modes",
        "amounts": "every assignment of {about 1/2, 2, 3} to 6 link ratios of a 4-period triangle%s, generic triangles of 3-9 periods, 7 packaged datasets" % ("" if t else " (quick: one in 7)"),
    }


def cases(tier):
    for k, c in enumerate(cases_(tier)):
        yield c if tier == "thorough" or k % 20 == 0 else dict(c, few=1)


def cases_(tier):
    t = tier == "thorough"
    ch = list(itertools.combinations(range(7), 4))
    for o in ch:
        for d in ch if t else (ch[0],):
            yield {"k": "lab", "shape": [4, 4], "o": list(o), "d": list(d), "boot": d == ch[0]}
    if not t:
        for d in ch[1:]:
            yield {"k": "lab", "shape": [4, 4], "o": [3, 4, 5, 6], "d": list(d), "boot": True}
    for n in range(3, 10):
        for scheme in list(space.SCHEMES[1:]) + list(EXTRA):
            if t or n < 6 or scheme in ("gap", "hundred", "big"):
                yield {"k": "lab", "shape": [n, n], "scheme": scheme, "boot": True}
    for n, m in ((3, 5), (5, 3), (2, 4)):
        for scheme in list(space.SCHEMES[1:]) + list(EXTRA):
            yield {"k": "lab", "shape": [n, m], "kind": "runoff", "scheme": scheme, "boot": False}
    for d in mk.FILES:
        for scheme in list(space.SCHEMES) + list(EXTRA) if t else ["gap", "zero"]:
            yield {"k": "lab", "data": d, "scheme": scheme, "boot": True}
    for k, g in enumerate(space.ratio_grids(4, [0.5, 2.0, 3.0])):
        if t or k % 7 == 0:
            g["ratios"] = [[r + 0.013 * (2 * i + j) for j, r in enumerate(rs)] for i, rs in enumerate(g["ratios"])]    # no perfect fit
            yield dict(g, k="scale", scale=SCALES[(k // 7) % 7] if not t else 10.0)
    for n in range(3, 10):
        for s in SCALES if t or n < 5 else SCALES[1:7:5]:
            yield {"k": "scale", "shape": [n, n], "scale": s}
    for d in mk.FILES:
        for s in (0.001, 1e3) if t else (1e3,):
            yield {"k": "scale", "data": d, "scale": s}


def relabelled(case, recs):
    rows, cols = sorted({r[0] for r in recs}), sorted({r[1] for r in recs})
    n, m = len(rows), len(cols)
    if "o" in case:
        o, d = case["o"], case["d"]
    elif case["scheme"] in EXTRA:
        a, b = EXTRA[case["scheme"]]
        o, d = [a + k for k in range(n)], [b * (k + 1) for k in range(m)]
    else:
        o, d = space.labels(case["scheme"], n, m)
    return dict(zip(rows, o)), dict(zip(cols, d))


def unlabel(x, inv_o, inv_d, inv_any):
    """Result object with labels mapped back to the original ones."""
    if isinstance(x, pd.Series):
        keys = set(x.index) - {"total"}
        return pd.Series(x.tolist(), index=[inv_any(k, keys) for k in x.index])
    y = x.copy()
    keys = set(y.index) - {"total"}
    if "sim" in y.columns:
        for c, inv in (("origin", inv_o), ("dev", inv_d), ("l_act_dev", inv_d)):
            if c in y.columns:
                y[c] = [inv.get(v, v) for v in y[c]]
        return y.reset_index(drop=True)
    if not (set(y.columns) - set(inv_d)):
        y.columns = [inv_d[c] for c in y.columns]
        keys = set(y.index)
    elif list(y.columns)[-1] == "ultimate" and not (set(y.columns[:-1]) - set(inv_d)):
        y.columns = [inv_d.get(c, c) for c in y.columns]
    if "maturity" in y.columns:
        y["maturity"] = [str(inv_d[int(v)]) if v != "" else "" for v in y["maturity"]]
    y.index = [inv_o.get(k, k) for k in y.index]
    return y


def results(tri, case):
    """(name, result, attributes as (attr, 'o'/'d'/'f'))"""
    sq = tri.shape[0] == tri.shape[1]
    n = tri.shape[1]
    avgs = tri.a2a_avgs()
    labs = list(avgs.index)
    if case.get("few"):
        labs = [l for l in labs if l in ("all-weighted", "all-medial", "all-geometric", "simple-2", "weighted-1")]
    elif n > 4:
        labs = [l for l in labs if l.startswith("all-") or l.endswith("-2")]
    for lab in labs:
        if not avgs.loc[lab].isna().any():
            yield "base_cl(%s, tail=1.05)" % lab, tri.base_cl(sel=lab, tail=1.05), BASE
    yield "base_cl(list)", tri.base_cl(sel=[1.7 - 0.1 * j for j in range(n - 1)]), BASE
    if sq and n >= 4:
        combos = [(0, "norm"), (1, "lognorm"), (2, "norm")] if case.get("few") else [(a, d) for a in (0, 1, 2) for d in ("norm", "lognorm")]
        for alpha, dist in combos:
            yield "mack_cl(%d, %s)" % (alpha, dist), tri.mack_cl(alpha=alpha, dist=dist, q=[.25, .5, .9]), MACKA
    if case.get("boot") and sq:
        for par in (False, True):
            yield "boot_cl(parametric=%s)" % par, tri.boot_cl(sims=3, random_state=7, parametric=par, q=[.3, .8]), BOOTA


BASE = {"summary": "f", "ldfs": "d", "trisqrd": "f", "latest": "o", "ultimate": "o", "reserve": "o", "cldfs": "o", "emergence": "o"}
MACKA = dict(BASE, process_error="o", parameter_error="o", devpvar="d", ldfvar="d")
BOOTA = dict(BASE, reserve_dist="f", sims_data="f", fitted_tri_cum="f", fitted_tri_incr="f", unscaled_residuals="f", adjusted_residuals="f",
             origin_dist="f")
AMOUNTS = {"latest", "ultimate", "reserve", "std_error", "25%", "50%", "90%"}


def run(case, obs):
    recs = mk.recs_of({k: v for k, v in case.items() if k not in ("scheme", "scale")})
    if case["k"] == "scale":
        return scale(case, obs, recs)
    mo, md = relabelled(case, recs)
    tri0 = trikit.totri(mk.tabular(recs))
    tri1 = trikit.totri(mk.tabular([(mo[o], md[d], v) for o, d, v in recs]))
    io, idv = {v: k for k, v in mo.items()}, {v: k for k, v in md.items()}
    sc = size(ref.cum_tri(recs)[2])
    for (name, a, attrs), (_, b, _) in zip(results(tri0, case), results(tri1, case)):
        obs.state(name, tuple(mo.values()), tuple(md.values()), recs[:1])
        for attr, kind in attrs.items():
            obs.step()
            x, y = getattr(a, attr), getattr(b, attr)
            if kind == "o":
                y = unlabel(y, io, idv, lambda k, ks: io.get(k, k))
            elif kind == "d":
                y = unlabel(y, io, idv, lambda k, ks: idv.get(k, k))
            else:
                y = unlabel(y, io, idv, None)
            if "sim" in getattr(x, "columns", ()):
                x = x.reset_index(drop=True)
            x, y = unname(x), unname(y)
            if not same(x, y, sc):
                obs.fail("%s of %s with origins %s, periods %s: %s, with labels %s, %s: %s" % (
                    attr, name, list(mo.values()), list(md.values()), str(y)[:600], list(mo), list(md), str(x)[:600]))
                return
    obs.trace()


def unname(x):
    c = canon(x)
    return c[:-1] if c[0] == "s" else c


def scale(case, obs, recs):
    k = case["scale"]
    tri0 = trikit.totri(mk.tabular(recs))
    tri1 = trikit.totri(mk.tabular([(o, d, v * k) for o, d, v in recs]))
    sc = size(ref.cum_tri(recs)[2])
    for (name, a, attrs), (_, b, _) in zip(results(tri0, case), results(tri1, case)):
        obs.state(name, k, recs)
        s, t = a.summary, b.summary
        skip = ()
        if "lognorm" in name and min(list(s["reserve"])[1:]) <= 1e-6 * max(s["ultimate"]):
            skip = ("25%", "50%", "90%")
        bad = lambda c, o, x, y: obs.fail("%s of %s in %s is %r, for amounts times %s it is %r (records %s)" % (c, o, name, x, k, y, recs[:40]))
        if list(s.columns) != list(t.columns) or list(s.index) != list(t.index):
            return bad("shape", "", list(s.columns), list(t.columns))
        big = max(sc, max(abs(v) for v in s["ultimate"]))
        for c in s.columns:
            if c in skip or c == "maturity":
                continue
            for o, x, y in zip(s.index, s[c], t[c]):
                obs.step()
                f = k if c in AMOUNTS else 1.0
                if c == "cv" and (isnan(x) or o == s.index[0] or abs(s.loc[o, "reserve"]) < 1e-6 * big):
                    continue
                if not close(x * f, y, big * f, 1e-6):
                    return bad(c, o, x, y)
        for d, x, y in zip(a.ldfs.index, a.ldfs, b.ldfs):
            if not close(x, y):
                return bad("ldf", d, x, y)
        for d in a.trisqrd.columns:
            for o, x, y in zip(a.trisqrd.index, a.trisqrd[d], b.trisqrd[d]):
                if not close(x * k, y, big * k):
                    return bad("trisqrd at %s" % d, o, x, y)
    obs.trace()
