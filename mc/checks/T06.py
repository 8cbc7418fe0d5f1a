"""T06: link ratios and their averages follow their definitions."""
import itertools
import trikit
import ref
import mk
import space
from cmp import close, isnan, labels


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "averages": "every kind x every window x every development period, for every triangle",
        "link ratios": "every assignment of {0.5, 1, 2%s} to the 6 link ratios of a 4-period triangle%s; every assignment of {0.5, 1.25, 2} to "
                       "the ratios of two- and three-period blocks with up to %d origins (ties, full columns)" % (
                           ", 1.25" if t else "", ", of {1, 2} to the 10 of a 5-period one" if t else "", 6 if t else 5),
        "extreme ratios": "every assignment of {1e-6, 0.03, 0.5, 1, 2, 30, 1e6} to the ratios of a 3-period triangle",
        "shapes": "run-off 2..14, full and run-off rectangles, 8 label schemes, scales 1e-9..1e9, 7 packaged datasets",
        "gaps": "single filled holes, zero and negative increments, n=4,5", "order": "a2a_avgs before and after a2a, read twice",
    }


def cases(tier):
    t = tier == "thorough"
    for g in space.ratio_grids(4, [0.5, 1.0, 2.0] + ([1.25] if t else [])):
        yield dict(g, scheme="year")
    if t:
        for g in space.ratio_grids(5, [1.0, 2.0]):
            yield dict(g, scheme="one")
    for n in range(2, 7 if t else 6):
        for vs in itertools.product([0.5, 1.25, 2.0], repeat=n):
            yield {"starts": [100.0 * (1 + k % 3) + 7 * k for k in range(n)], "ratios": [[v] for v in vs], "scheme": "month"}
    for vs in itertools.product([0.5, 2.0], repeat=6):
        yield {"starts": [100.0, 250.0, 90.0, 40.0], "ratios": [list(vs[:2]), list(vs[2:4]), [vs[4]], [vs[5]]], "scheme": "gap"}
        yield {"starts": [100.0, 250.0, 90.0, 40.0], "ratios": [list(vs[:2]), list(vs[2:4]), list(vs[4:]), []], "scheme": "gap"}
    for vs in itertools.product([1e-6, 0.03, 0.5, 1.0, 2.0, 30.0, 1e6], repeat=3):
        yield {"starts": [100.0, 160.0, 90.0], "ratios": [list(vs[:2]), [vs[2]], []], "scheme": "year"}
    for scheme in space.SCHEMES:
        for n, m in ((2, 2), (3, 3), (5, 5), (3, 5), (5, 3), (6, 6)):
            for kind in ("runoff", "full"):
                for scale in (1e-9, 1e-3, 1.0, 1e9) if n == 5 else (1.0,):
                    yield {"shape": [n, m], "kind": kind, "scheme": scheme, "scale": scale}
    for n in (4, 5):
        base = space.runoff(n)
        for c in sorted(base):
            for v in (None, 0.0, -2.5):
                if v == None and c == (0, n - 1):
                    continue
                d = dict(base)
                d[c] = v
                yield {"recs": [[i, j, x] for (i, j), x in sorted(d.items())], "scheme": "year"}
    for n in range(7, 15):
        yield {"shape": [n, n], "scheme": "year", "variant": n}
    for d in mk.FILES:
        yield {"data": d}


def run(case, obs):
    recs = mk.recs_of(case)
    m = ref.cum_tri(recs)
    rows, cols, x = m
    assert all(v is None or v > 0 for r in x for v in r)
    tri = trikit.totri(mk.tabular(recs))
    ratios = ref.a2a(m)
    table = ref.average_table(m)
    obs.state(m)
    labs = sorted({k[0] for k in table})

    def check_avgs(how):
        f = tri.a2a_avgs()
        obs.step()
        obs.check(sorted(f.index) == labs, "a2a_avgs rows %s, expected %s" % (sorted(f.index), labs))
        obs.check(labels(f.columns) == labels(cols[:-1]), "a2a_avgs columns %s" % list(f.columns))
        for lab in f.index:
            for c in f.columns:
                obs.step()
                got, want = f.at[lab, c], table.get((lab, int(c)))
                if not close(got, want):
                    obs.fail("%s: average %s of period %s is %r, expected %r (triangle %s)" % (how, lab, c, got, want, x))

    def check_a2a(how):
        f = tri.a2a
        seen = {}
        for o in f.index:
            for c in f.columns:
                obs.step()
                if not isnan(f.at[o, c]):
                    seen[(int(o), int(c))] = float(f.at[o, c])
        obs.check(set(seen) == set(ratios), "%s: a2a has ratios for %s, expected %s" % (how, sorted(seen), sorted(ratios)))
        for k in ratios:
            if k in seen and not close(seen[k], ratios[k]):
                obs.fail("%s: link ratio %s is %r, expected %r" % (how, k, seen[k], ratios[k]))
        obs.check(list(f.index) == sorted(f.index) and list(f.columns) == sorted(f.columns), "a2a is not in order")

    def check_ind(how):
        f, g = tri.a2aind, tri.a2a_lvi
        for o in rows:
            for c in cols[:-1]:
                obs.step()
                v = f.at[o, c] if o in f.index else None
                obs.check((not isnan(v) and v == 1) == ((o, c) in ratios), lambda: "%s: a2aind at %s is %s (triangle %s)" % (how, (o, c), v, x))
        for j, c in enumerate(cols[:-1]):
            i = [k for k, o in enumerate(rows) if (o, c) in ratios]
            if i:
                got = (g.at[c, "origin"], g.at[c, "row_offset"])
                obs.check(got == (rows[i[-1]], i[-1]), lambda: "%s: a2a_lvi of %s is %s, expected %s (triangle %s)" % (how, c, got, (rows[i[-1]], i[-1]), x))

    check_avgs("first")
    check_a2a("after averages")
    lacking = any(not any((o, c) in ratios for o in rows) for c in cols[:-1])
    if not lacking:
        check_ind("after averages")
    tri.base_cl()
    check_avgs("again")
    tri = trikit.totri(mk.tabular(recs))
    if not lacking:
        check_ind("first")
    check_a2a("first")
    obs.trace()
