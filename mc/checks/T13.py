"""T13: Mack reserve distributions match the estimate's mean and error."""
import itertools
import math
import trikit
import ref
import mk
import mackspace
from cmp import close, size, isnan, labels

ALPHA = [0.7, 1.1, 1.9]
LEVELS = [0.5, 0.75, 0.9, 0.99995, 0.05, 0.3, 2e-7]
PROBE = [0, 1e-6, 0.000321, 0.05, 0.25, 0.5, 0.9, 0.9987654, 1 - 1e-6, 1]


def BOUNDS(tier):
    return {"triangles": mackspace.BOUNDS(ALPHA, 3), "calls": "alpha 0, 1, 2 x norm, lognorm (where all reserves are positive) x one- and two-sided",
            "quantiles": "every subset of %s (in rotation over the triangles; every one on one triangle); distributions probed at %s" % (LEVELS, PROBE)}


def cases(tier):
    t = tier == "thorough"
    subsets = [list(s) for k in range(1, 8) for s in itertools.combinations(LEVELS, k)]
    for s in subsets:
        yield {"shape": [5, 5], "scheme": "year", "q": s}
    for k, c in enumerate(mackspace.triangles(tier, ALPHA, 3)):
        yield dict(c, q=subsets[(k * 5) % len(subsets)])




def quantile(dist, mean, se, p):
    if p in (0, 1):
        return math.inf if p else -math.inf if dist == "norm" else 0.0
    z = ref.norm_ppf(p)
    if dist == "norm":
        return mean + z * se
    s2 = math.log(1 + (se / mean) ** 2)
    return math.exp(math.log(mean) - s2 / 2 + math.sqrt(s2) * z)


def run(case, obs):
    recs = mk.recs_of({k: v for k, v in case.items() if k != "q"})
    m = ref.cum_tri(recs)
    rows, C = m[0], m[2]
    tri = trikit.totri(mk.tabular(recs))
    q = case["q"]
    for alpha in (0, 1, 2):
        w = ref.mack(m, alpha)
        mean = dict(zip(list(rows) + ["total"], w["reserve"] + [sum(w["reserve"])]))
        se = dict(zip(list(rows) + ["total"], w["std_error"] + [w["total_se"]]))
        keys = (list(rows) + ["total"])[1:]
        for dist in ("norm", "lognorm"):
            if dist == "lognorm" and min(mean[k] for k in keys) <= 1e-6 * size(C):
                continue
            for two in (False, True):
                r = tri.mack_cl(alpha=alpha, dist=dist, q=q, two_sided=two)
                obs.state(m, alpha, dist, q, two)
                bad = lambda what, got, want: obs.fail("%s of mack_cl(alpha=%d, dist=%s, q=%s, two_sided=%s) is %r, expected %r (amounts %s)" % (
                    what, alpha, dist, q, two, got, want, C))
                s = r.summary
                if labels(list(r.rvs.index)[:-1]) != labels(rows) or r.rvs.index[-1] != "total":
                    return bad("rvs index", list(r.rvs.index), rows)
                want = sorted({round(p, 9) for x in q for p in (((1 - x) / 2, (1 + x) / 2) if two else (x,))})
                got = [c for c in s.columns if c.endswith("%")]
                heads = [("%.5f" % (100 * p)).rstrip("0").rstrip(".") + "%" for p in want]
                if got != heads:
                    return bad("quantile columns", got, heads)
                gq = r.get_quantiles(PROBE)
                for k in keys:
                    sc = abs(mean[k]) + se[k]
                    rv = r.rvs[k]
                    if not close(rv.mean(), mean[k], 10 * sc):
                        return bad("mean of rvs at %s" % k, rv.mean(), mean[k])
                    if not close(rv.std(), se[k], 10 * sc):
                        return bad("std of rvs at %s" % k, rv.std(), se[k])
                    for p, h in zip(want, heads):
                        obs.step()
                        if not close(s.loc[k, h], quantile(dist, mean[k], se[k], p), 100 * sc):
                            return bad("%s of %s" % (h, k), s.loc[k, h], quantile(dist, mean[k], se[k], p))
                    row = list(gq.loc[k])
                    for p, a in zip(PROBE, row):
                        obs.step()
                        if not close(a, quantile(dist, mean[k], se[k], p), 100 * sc):
                            return bad("get_quantiles %s of %s" % (p, k), a, quantile(dist, mean[k], se[k], p))
                    if any(x > y for x, y in zip(row, row[1:])):
                        return bad("get_quantiles of %s" % k, row, "non-decreasing values")
                first = list(s.loc[rows[0], heads])
                if not all(isnan(v) or abs(v) <= 1e-6 * size(C) for v in first):
                    return bad("quantiles of %s" % rows[0], first, "empty")
    obs.trace()
