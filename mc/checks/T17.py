"""T17: bootstrap summaries aggregate exactly the simulations run."""
import itertools
import math
import trikit
import ref
import mk
import space
import bootspace
import mackspace
from cmp import close, size, isnan, labels

ALPHA = [0.6, 1.1, 1.8]
QS = [[0.5], 0.9, [0.75, 0.95], (0.1, 0.25, 0.999), [0, 1], [0.995, 0.005, 0.5, 0.5], [0.333, 0.6667]]
METHODS = ["linear", "lower", "higher", "midpoint", "nearest"]


def BOUNDS(tier):
    t = tier == "thorough"
    return {"settings": "sims in {1, 2, 3, 4, 5, 8, 21, 100%s} x seeds 0, 1%s x both residual modes x %d quantile lists x one-/two-sided x 5 interpolations, complete product on a 3-period "
                        "triangle (quick: one in 3), in rotation on the others" % (", 1000" if t else "", ", 2, 3" if t else "", len(QS)),
            "triangles": mackspace.BOUNDS(ALPHA, 4) + ", every 3-period triangle with link ratios in %s" % bootspace.ALPHA3}


def cases(tier):
    t = tier == "thorough"
    allset = list(itertools.product((1, 2, 3, 4, 5, 8, 21, 100) + ((1000,) if t else ()), (0, 1, 2, 3) if t else (0, 1), (0, 1), range(len(QS)), (0, 1), METHODS))
    for k, c in enumerate(allset):
        if t or k % 3 == 1:
            yield {"shape": [3, 3], "scheme": space.SCHEMES[k % 8], "set": list(c)}
    for k, c in enumerate(bootspace.triangles(tier, ALPHA, 4)):
        yield dict(c, set=list(allset[(k * 37 + 11) % len(allset)]))


def run(case, obs):
    recs = mk.recs_of(case)
    m = ref.cum_tri(recs)
    rows, cols, C = m
    sims, seed, par, qi, two, method = case["set"]
    q = QS[qi]
    tri = trikit.totri(mk.tabular(recs))
    r = tri.boot_cl(sims=sims, random_state=seed, parametric=bool(par), q=q, two_sided=bool(two), interpolation=method)
    obs.state(m, sims, seed, par, qi, two, method)
    sc = size(C)
    s = r.summary
    bad = lambda msg: obs.fail("boot_cl(sims=%d, random_state=%d, parametric=%s, q=%s, two_sided=%s, interpolation=%s): %s (amounts %s)" % (
        sims, seed, bool(par), q, bool(two), method, msg, C))
    keys = list(rows) + ["total"]
    if labels(list(s.index)[:-1]) != labels(rows) or s.index[-1] != "total":
        return bad("summary rows %s" % list(s.index))
    d = r.reserve_dist
    if len(d) != sims * len(keys):
        return bad("%d records in reserve_dist for %d simulations of %d origins" % (len(d), sims, len(rows)))
    dist = {}
    for a, o, l, u, v in zip(d["sim"], d["origin"], d["latest"], d["ultimate"], d["reserve"]):
        dist[(int(a), o if o == "total" else int(o))] = (float(l), float(u), float(v))
    ids = sorted({a for a, _ in dist})
    if len(dist) != len(d) or len(ids) != sims or {o for _, o in dist} != set(keys):
        return bad("reserve_dist does not have one record per simulation and origin")
    raw = r.sims_data
    last = {(int(a), int(o)): float(u) for a, o, dv, u in zip(raw["sim"], raw["origin"], raw["dev"], raw["ultimate"]) if dv == cols[-1]}
    big = sc + max(abs(x) for v in dist.values() for x in v)
    for a in ids:
        for o in rows:
            obs.step()
            l, u, v = dist[(a, o)]
            if not close(v, 0.0 if o == rows[0] else u - l, big):
                return bad("reserve of %s in simulation %d is %r, latest %r, ultimate %r" % (o, a, v, l, u))
            if not close(u, last[(a, o)], big):
                return bad("ultimate of %s in simulation %d is %r but sims_data ends at %r" % (o, a, u, last[(a, o)]))
        for k in range(3):
            if not close(dist[(a, "total")][k], math.fsum(dist[(a, o)][k] for o in rows), big):
                return bad("total %s of simulation %d is %r" % (("latest", "ultimate", "reserve")[k], a, dist[(a, "total")][k]))
    od = r.origin_dist
    got = {(int(a), o if o == "total" else int(o)): (l, u, v) for a, o, l, u, v in zip(od["sim"], od["origin"], od["latest"], od["ultimate"], od["reserve"])}
    if len(got) != len(od) or not set(dist) >= set(got) >= {k for k in dist if k[1] != "total"}:
        return bad("origin_dist lists %s" % sorted(got, key=str)[:20])
    for k, v in got.items():
        obs.step()
        if not all(close(x, y, big) for x, y in zip(v, dist[k])):
            return bad("origin_dist of %s is %s, reserve_dist has %s" % (k, v, dist[k]))
    lat = [v for _, _, v in ref.latest(m)]
    ult = [lat[0]] + [math.fsum(dist[(a, o)][1] for a in ids) / sims for o in rows[1:]]
    f = [ref.average(m, "weighted", None, j) for j in range(len(cols) - 1)] + [1.0]
    cl = ref.chain_ladder(m, f)
    want = {"latest": lat + [sum(lat)], "ultimate": ult + [sum(ult)], "reserve": [u - l for u, l in zip(ult, lat)] + [sum(ult) - sum(lat)],
            "cldf": cl["cldf"] + [None], "emergence": cl["emergence"] + [None],
            "std_error": [ref.std1([dist[(a, o)][2] for a in ids]) for o in keys]}
    if list(s["maturity"]) != [str(v) for v in cl["maturity"]] + [""]:
        return bad("maturity %s" % list(s["maturity"]))
    for c, vs in want.items():
        for o, a, b in zip(keys, list(s[c]), vs):
            obs.step()
            if not close(a, b, big if c not in ("cldf", "emergence") else 0.0):
                return bad("%s of %s is %r, expected %r" % (c, o, a, b))
    for o, a, se, rs in zip(keys, s["cv"], want["std_error"], want["reserve"]):
        if o == rows[0]:
            if not (isnan(a) or a == 0):
                return bad("cv of %s is %r" % (o, a))
        elif se is None:
            if not isnan(a):
                return bad("cv of %s is %r after one simulation" % (o, a))
        elif abs(rs) > 1e-4 * big and not close(a, se / rs, 0.0, 1e-6):
            return bad("cv of %s is %r, expected %r" % (o, a, se / rs))
    ql = [q] if isinstance(q, (int, float)) else list(q)
    lv = sorted({round(p, 9) for x in ql for p in (((1 - x) / 2, (1 + x) / 2) if two else (x,))})
    heads = [("%.5f" % (100 * p)).rstrip("0").rstrip(".") + "%" for p in lv]
    if [c for c in s.columns if c.endswith("%")] != heads:
        return bad("quantile columns %s, expected %s" % ([c for c in s.columns if c.endswith("%")], heads))
    for o in keys:
        xs = [dist[(a, o)][2] for a in ids]
        for p, h in zip(lv, heads):
            obs.step()
            ok = [ref.percentile(xs, min(1.0, max(0.0, p + e)), method) for e in (0.0, 2e-9, -2e-9)]
            if not any(close(s.loc[o, h], b, big) for b in ok):
                return bad("%s of %s is %r, expected %r (simulated reserves %s)" % (h, o, s.loc[o, h], ok[0], sorted(xs)[:12]))
    if (r.sims, r.procdist, r.interpolation, r.parametric) != (sims, "gamma", method, bool(par)):
        return bad("result reports sims %s, procdist %s, interpolation %s, parametric %s" % (r.sims, r.procdist, r.interpolation, r.parametric))
    obs.trace()
