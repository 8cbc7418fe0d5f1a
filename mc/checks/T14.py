"""T14: Mack assumption tests compute the published statistics."""
import itertools
import math
from decimal import Decimal
import numpy as np
import trikit
import ref
import mk
import space
from cmp import close, isnan

PS = [0.5, 0.05, 0.1, 0.25, 0.75, 0.9, 0.95, 0.99]
STARTS = [1.0, 0.0, 0.5, 0.25, 0.75, 0.1, 0.9, 1 - 2.0 ** -53]
DYADIC = [1.25, 1.5, 1.75, 2.0, 2.25, 1.125]
DECIMAL = ["1.1", "1.2", "1.3", "1.05", "2.7", "0.9"]
CENTS = ["10.1", "20.2", "30.3", "70.7", "90.9", "3.3"]
SIZES = [64.0, 128.0, 32.0, 256.0, 64.0, 16.0, 512.0, 128.0]


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "rank patterns": "every joint weak ordering (ties included) of the link ratios of each period for 4 and 5 periods%s; for 6 periods every pair of "
                         "permutations of the first two periods%s; for 7 every permutation of the first (quick: one in 40)" % (
                             "" if t else " (5 periods: one in 3)", "" if t else " (one in 40)"),
        "decimals": "the same orderings for 4 periods (5: one in %d) of decimal ratios of amounts in cents, where equal ratios are equal only up to rounding" % (10 if t else 60),
        "p": "%s, both tests" % PS, "generator answers": "np.random.rand/random_sample/uniform answering each of %s, and seeds 0-4" % STARTS,
        "sizes": "generic triangles of 4-14 periods, 8 label schemes, 7 packaged datasets", "alpha": "0, 1, 2 (no influence)",
    }


def weak_orders(k):
    """Every ranking with ties of k items, as tuples of level indices."""
    out = []
    for v in itertools.product(range(k), repeat=k):
        if set(v) == set(range(max(v) + 1)):
            out.append(v)
    return out


def cases(tier):
    t = tier == "thorough"
    for n, step in ((4, 1), (5, 1 if t else 3)):
        for k, combo in enumerate(itertools.product(*[weak_orders(c) for c in range(n - 1, 0, -1)])):
            if k % step == 0:
                yield {"k": "rank", "n": n, "cols": [list(c) for c in combo]}
    for n, step in ((4, 1), (5, 10 if t else 60)):
        for k, combo in enumerate(itertools.product(*[weak_orders(c) for c in range(n - 1, 0, -1)])):
            if k % step == 0:
                yield {"k": "rank", "n": n, "cols": [list(c) for c in combo], "dec": 1}
    for k, (a, b) in enumerate(itertools.product(itertools.permutations(range(5)), itertools.permutations(range(4)))):
        if t or k % 40 == 7:
            yield {"k": "rank", "n": 6, "cols": [list(a), list(b), [1, 0, 2], [0, 1], [0]]}
    for k, a in enumerate(itertools.permutations(range(6))):
        if t or k % 40 == 3:
            yield {"k": "rank", "n": 7, "cols": [list(a), [1, 4, 0, 3, 2], [3, 0, 2, 1], [2, 1, 0], [1, 0], [0]]}
    for n in range(4, 15):
        for v in range(6 if t else 1):
            yield {"k": "gen", "shape": [n, n], "scheme": space.SCHEMES[(n + v) % 8], "variant": v}
    for scheme in space.SCHEMES:
        yield {"k": "gen", "shape": [5, 5], "scheme": scheme, "variant": 3}
    for d in mk.FILES:
        yield {"k": "gen", "data": d}


def run(case, obs):
    if case["k"] == "rank" and case.get("dec"):
        n = case["n"]
        recs, o, d = [], *space.labels("year", n)
        for i in range(n):
            c = Decimal(CENTS[i])
            recs.append((o[i], d[0], float(c)))
            for j in range(n - 1 - i):
                e = c * Decimal(DECIMAL[case["cols"][j][i]])
                recs.append((o[i], d[j + 1], float(e - c)))
                c = e
    elif case["k"] == "rank":
        n = case["n"]
        ratios = [[DYADIC[case["cols"][j][i]] for j in range(n - 1 - i)] for i in range(n)]
        starts = [s * 4096 for s in SIZES[:n]]
        recs = mk.recs_of({"starts": starts, "ratios": ratios, "scheme": space.SCHEMES[sum(map(sum, case["cols"])) % 7]})
    else:
        recs = mk.recs_of(case)
    m = ref.cum_tri(recs)
    n = len(m[1])
    tri = trikit.totri(mk.tabular(recs))
    r = tri.mack_cl(alpha=sum(1 for x in recs if int(x[2]) % 2) % 3)
    obs.state(m)
    T = ref.spearman(m)
    Z, E, V = ref.cy_effects(m)
    bad = lambda what, got, want: obs.fail("%s is %r, expected %r (amounts %s)" % (what, got, want, m[2]))
    full = case["k"] == "gen"
    side, ranks = sides(m), ref.rank_tables(m)
    f = tri.a2a_assignment
    for o in m[0][:-1]:
        for c in m[1][:-1]:
            obs.step()
            got, want = f.at[o, c] if o in f.index else None, side.get((o, c))
            if isnan(got) != (want is None) or (want is not None and got != want):
                return bad("a2a_assignment at %s" % ((o, c),), got, want)
    f = tri.ranked_a2a
    if sorted(f.columns) != sorted(ranks):
        return bad("ranked_a2a columns", list(f.columns), sorted(ranks))
    for c, want in ranks.items():
        got = {int(o): float(v) for o, v in f[c].items() if not isnan(v)}
        obs.step()
        if got != want:
            return bad("ranked_a2a %s" % c, got, want)
    for p in PS if full else [PS[(sum(map(sum, case["cols"]))) % 8], 0.5]:
        z = ref.norm_ppf((1 + p) / 2)
        s = math.sqrt((n - 2) * (n - 3) / 2)
        for start in STARTS if full else STARTS[:1]:
            with scripted(start):
                (lo, hi), stat = r.devp_corr_test(p=p)
            obs.step(3)
            if not close(stat, T, 1.0):
                return bad("devp_corr_test(p=%s) statistic" % p, stat, T)
            if not (close(hi, z / s, 0.0, 1e-6) and close(lo, -z / s, 0.0, 1e-6)):
                return bad("devp_corr_test(p=%s) bounds with random start %s" % (p, start), (lo, hi), (-z / s, z / s))
        (lo, hi), stat = r.cy_effects_test(p=p)
        zz = ref.norm_ppf(1 - p / 2)
        obs.step(3)
        if stat != Z:
            return bad("cy_effects_test statistic", stat, Z)
        if not (close(lo, E - zz * math.sqrt(V), 1.0) and close(hi, E + zz * math.sqrt(V), 1.0)):
            return bad("cy_effects_test(p=%s) bounds" % p, (lo, hi), (E - zz * math.sqrt(V), E + zz * math.sqrt(V)))
    if full:
        (lo, hi), stat = r.cy_effects_test()
        zz = ref.norm_ppf(0.975)
        if stat != Z or not close(hi, E + zz * math.sqrt(V), 1.0):
            return bad("cy_effects_test()", ((lo, hi), stat), (E, V))
        for seed in range(5):
            np.random.seed(seed)
            (lo, hi), stat = r.devp_corr_test()
            want = ref.norm_ppf(0.75) / s
            if not (close(hi, want, 0.0, 1e-6) and close(lo, -want, 0.0, 1e-6) and close(stat, T, 1.0)):
                return bad("devp_corr_test() after np.random.seed(%d)" % seed, ((lo, hi), stat), (want, T))
    obs.trace()


def sides(m):
    """+1, -1 or 0 for every link ratio above, below or at its period's median."""
    rows, cols, _ = m
    ratios = ref.a2a(m)
    out = {}
    for c in cols[:-1]:
        med = ref.median([v for k, v in ratios.items() if k[1] == c])
        for (o, d), v in ratios.items():
            if d == c:
                out[(o, d)] = 0 if abs(v - med) <= 1e-8 + 1e-5 * abs(med) else 1 if v > med else -1
    return out


class scripted:
    """Numpy's global generator answers every uniform request with one value."""
    NAMES = ("rand", "random", "random_sample", "uniform", "ranf", "sample")

    def __init__(self, value):
        self.value = value

    def __enter__(self):
        self.old = {k: getattr(np.random, k) for k in self.NAMES}
        v = self.value

        def answer(*size):
            return np.full(size, v) if size else v

        def sized(size=None):
            return v if size is None else np.full(size, v)

        def uniform(low=0.0, high=1.0, size=None):
            return low + (high - low) * (v if size is None else np.full(size, v))

        np.random.rand = answer
        np.random.uniform = uniform
        for k in ("random", "random_sample", "ranf", "sample"):
            setattr(np.random, k, sized)

    def __exit__(self, *a):
        for k, f in self.old.items():
            setattr(np.random, k, f)
