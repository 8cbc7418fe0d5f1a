"""Triangles on which the Mack checks run (T11, T12, T13)."""
import mk
import space


def nudge(g):
    """The same ratios with small distinct disturbances, so that no period is fitted perfectly."""
    return dict(g, ratios=[[r + 0.013 * (2 * i + j) * (1 if (i + j) % 2 else -1) / 3 for j, r in enumerate(rs)] for i, rs in enumerate(g["ratios"])])


def triangles(tier, alphabet, step=1):
    t = tier == "thorough"
    for k, g in enumerate(space.ratio_grids(4, alphabet)):
        if t or k % step == 0:
            yield dict(nudge(g), scheme=space.SCHEMES[k % 8])
    for scheme in space.SCHEMES:
        for n in (4, 5, 6) if t else (4, 5):
            for v in range(3 if t else 1):
                yield {"shape": [n, n], "scheme": scheme, "variant": v}
    for n in range(4, 15):
        for v in range(4 if t else 1):
            if t or n < 9 or n % 2:
                yield {"shape": [n, n], "scheme": "year" if v % 2 else "gap", "variant": v + n}
    for s in (1e-9, 1e-6, 1e-3, 0.3, 1e4, 1e9):
        yield {"shape": [4, 4], "scheme": "zero", "scale": s}
        yield {"shape": [5, 5], "scheme": "month", "scale": s}
    for n in (4, 5):                              # a zero or negative increment in each later cell
        base = space.runoff(n)
        for c in sorted(base):
            for v in (0.0, -7.5):
                if c[1] > 0:
                    d = dict(base)
                    d[c] = v
                    yield {"recs": [[i, j, x] for (i, j), x in sorted(d.items())], "scheme": "month"}
    for d in mk.FILES:
        yield {"data": d}


def BOUNDS(alphabet, step):
    return ("every assignment of values near %s to the 6 link ratios of a 4-period triangle (quick: one in %d), generic run-off triangles of 4-14 "
            "periods (quick: 4-9, 11, 13) over 8 label schemes and amounts scaled 1e-9..1e9, one zero or negative increment in every later cell of 4- and "
            "5-period triangles, 7 packaged datasets" % (alphabet, step))
