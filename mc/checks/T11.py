"""T11: Mack factors and point estimates follow the model."""
import trikit
import ref
import mk
import space
import mackspace
from cmp import close, size, same, canon
from clcmp import compare_cl

ALPHA = [0.6, 1.0, 1.8]
CALLS = [dict(dist="lognorm"), dict(dist="norm", q=.9), dict(dist="norm", q=[.1, .5], two_sided=True), dict(dist="lognorm", q=(0.99,), two_sided=True)]


def BOUNDS(tier):
    return {"triangles": mackspace.BOUNDS(ALPHA, 3), "tied": "every assignment of exactly {1/2, 1, 2} to the 6 link ratios (perfect fits, quick: one in 4)",
            "calls": "alpha 0, 1, 2 x %d combinations of dist, q, two_sided; alpha=1 also against base_cl" % len(CALLS)}


def cases(tier):
    t = tier == "thorough"
    for k, c in enumerate(mackspace.triangles(tier, ALPHA, 3)):
        yield dict(c, rot=k if "ratios" in c else -1)
    for k, g in enumerate(space.ratio_grids(4, [0.5, 1.0, 2.0])):
        if t or k % 4 == 0:
            yield dict(g, scheme="year", rot=k)


def run(case, obs):
    recs = mk.recs_of(case)
    m = ref.cum_tri(recs)
    rows, cols, C = m
    n = len(cols)
    tri = trikit.totri(mk.tabular(recs))
    base = tri.base_cl(sel="all-weighted", tail=1.0)
    calls = CALLS if case["rot"] < 0 else [CALLS[case["rot"] % 4]]
    for alpha in (0, 1, 2):
        f = []
        for k in range(n - 1):
            w = [C[i][k] ** alpha for i in range(n - 1 - k)]
            f.append(sum(a * C[i][k + 1] / C[i][k] for i, a in enumerate(w)) / sum(w))
        for kw in calls:
            r = tri.mack_cl(alpha=alpha, **kw)
            what = "mack_cl(alpha=%d, %s)" % (alpha, kw)
            obs.state(m, alpha, sorted(kw.items(), key=str))
            if compare_cl(obs, r, m, f + [1.0], what, ult_col=False) is not True:
                return
            if (r.alpha, r.tail, r.dist, r.tri is tri) != (alpha, 1.0, kw["dist"], True):
                return obs.fail("%s reports alpha %s, tail %s, dist %s" % (what, r.alpha, r.tail, r.dist))
            if alpha == 1:
                cols_ = ["maturity", "cldf", "emergence", "latest", "ultimate", "reserve"]
                obs.step(3)
                sc = size(C) * max(1.0, max(r.cldfs[:-1]))
                if not same(canon(base.summary[cols_]), canon(r.summary[cols_]), sc):
                    return obs.fail("%s and base_cl differ: %s / %s" % (what, canon(r.summary[cols_]), canon(base.summary[cols_])))
                if not same(canon(base.trisqrd.drop(columns="ultimate")), canon(r.trisqrd), sc):
                    return obs.fail("%s and base_cl have different squared triangles" % what)
    obs.trace()
