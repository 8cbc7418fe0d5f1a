"""T08: chain ladder results follow the development technique."""
import itertools
import trikit
import ref
import mk
import space
from clcmp import compare_cl

TAILS = [1.0, 1.1, 0.95, 2.5]


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "selections": "every row of a2a_avgs for n <= 5 (all shapes and labels), every kind with windows all, 1, 2 and largest otherwise",
        "tails": str(TAILS), "link ratios": "every assignment of {0.5, 2%s} to the 6 link ratios of a 4-period triangle" % (", 1" if t else ""),
        "shapes": "run-off, full and stepped grids up to 7x7, run-off up to 14x14 (quick: sizes 2-7, 9, 11, 12, 14), 8 label schemes, scales 1e-12..1e9, origins with equal amounts (every pattern of 3 origins, 2-4 periods), 7 packaged datasets",
        "gaps": "single holes (filled), zero and negative increments, n=4,5",
    }


def cases(tier):
    t = tier == "thorough"
    for g in space.ratio_grids(4, [0.5, 2.0, 1.0] if t else [0.5, 2.0]):
        yield dict(g, scheme="year", sels="few", tails=[1.0, 1.1] if t else [1.1])
    for scheme in space.SCHEMES:
        for n, m in ((2, 2), (3, 3), (4, 4), (3, 5), (5, 3)) + (((5, 5), (2, 6)) if t else ()):
            for kind in ("runoff", "full"):
                yield {"shape": [n, m], "kind": kind, "scheme": scheme, "sels": "all" if t or (kind == "runoff" and n == m) else "few" if t or kind == "runoff" else "one",
                       "tails": TAILS[:3] if t or n * m < 16 else [1.1]}
    for n in range(1, 8):
        for m in range(2, 8):
            for kind in ("runoff", "full", "stair2"):
                if t or kind != "full" or n == m:
                    yield {"shape": [n, m], "kind": kind, "scheme": "gap", "sels": "one", "tails": TAILS}
    for n in (4, 5):
        base = space.runoff(n)
        for c in sorted(base):
            for v in (None, 0.0, -2.5):
                if v is None and c == (0, n - 1):
                    continue
                d = dict(base)
                d[c] = v
                yield {"recs": [[i, j, x] for (i, j), x in sorted(d.items())], "scheme": "month", "sels": "few" if t else "one", "tails": TAILS[:2], "gaps": 1}
    for n in range(6, 15) if t else (6, 7, 9, 11, 12, 14):
        yield {"shape": [n, n], "scheme": "year", "variant": n, "sels": "few", "tails": [1.0, 1.05] if t else [1.05]}
    for rows in itertools.product(range(2), repeat=3):           # origins with equal amounts
        for m in (2, 3, 4):
            yield {"recs": [[i, j, space.amount(a, j)] for i, a in enumerate(rows) for j in range(m)], "scheme": "year", "sels": "few", "tails": TAILS[:2]}
            yield {"recs": [[i, j, space.amount(a, j)] for i, a in enumerate(rows) for j in range(m) if i + j < 4], "scheme": "month", "sels": "few", "tails": TAILS[:2]}
    for scale in (1e-12, 1e-9, 1e-3, 1.0, 1e9):
        yield {"shape": [4, 4], "scheme": "zero", "scale": scale, "sels": "all", "tails": TAILS}
    for d in mk.FILES:
        yield {"data": d, "sels": "all" if t else "few", "tails": [1.0, 1.01] if t else [1.01]}


def pick(labs, how):
    if how == "all":
        return labs
    if how == "one":
        return ["all-weighted"]
    out = []
    for kind in ("simple", "geometric", "medial", "weighted"):
        ks = sorted((int(l.split("-")[1]) for l in labs if l.startswith(kind)))
        out += ["all-" + kind] + ["%s-%d" % (kind, k) for k in ([1, 2, ks[-1]] if len(ks) > 1 else ks) if k in ks]
    return sorted(set(out))


def run(case, obs):
    recs = mk.recs_of(case)
    m = ref.cum_tri(recs)
    table = ref.average_table(m)
    labs = sorted({k[0] for k in table})
    for fresh in (False, True) if case["sels"] == "one" else (False,):
        tri = trikit.totri(mk.tabular(recs))
        for lab in pick(labs, case["sels"]):
            ldfs = [table[(lab, c)] for c in m[1][:-1]]
            if None in ldfs:
                continue
            for tail in case["tails"]:
                if fresh:
                    tri = trikit.totri(mk.tabular(recs))
                r = tri.base_cl(sel=lab, tail=tail)
                obs.state(m, lab, tail)
                if compare_cl(obs, r, m, ldfs + [tail], "base_cl(%s, tail=%s)" % (lab, tail), gaps=bool(case.get("gaps"))) is not True:
                    return
                obs.check(r.sel == lab and r.tail == tail and r.tri is tri, "result reports sel %s, tail %s" % (r.sel, r.tail))
        r = tri.base_cl()
        if compare_cl(obs, r, m, [table[("all-weighted", c)] for c in m[1][:-1]] + [1.0], "base_cl()", gaps=bool(case.get("gaps"))) is not True:
            return
    obs.trace()
