"""Triangles and the model fit shared by the bootstrap checks (T15, T16, T17)."""
import math
import ref
import mackspace
import space

ALPHA3 = [0.6, 1.1, 1.5, 2.0, 3.0]


def triangles(tier, alphabet, step=1):
    for k, g in enumerate(space.ratio_grids(3, ALPHA3)):
        r = g["ratios"]
        if abs(r[0][0] - r[1][0]) > 0.01:                  # a perfect fit has no residuals to resample
            yield dict(g, scheme=space.SCHEMES[k % 8])
    for scheme in space.SCHEMES:
        yield {"shape": [3, 3], "scheme": scheme}
    for n in (3, 4, 5, 6):                                   # no development in the last period
        g = {"starts": [128.0, 160.0, 96.0, 256.0, 64.0, 512.0][:n],
             "ratios": [[1.5 + 0.25 * ((i + 2 * j) % 3) if j < n - 2 else 1.0 for j in range(n - 1 - i)] for i in range(n)]}
        yield dict(g, scheme="month")
    for n in (3, 4, 5):                                      # hardly any
        g = {"starts": [128.0, 160.0, 96.0, 256.0, 64.0, 512.0][:n],
             "ratios": [[1.5 + 0.25 * ((i + 2 * j) % 3) if j < n - 2 else 1.00001 for j in range(n - 1 - i)] for i in range(n)]}
        yield dict(g, scheme="span")
    for c in mackspace.triangles(tier, alphabet, step):
        yield c


def fit(tri):
    """ODP fit of a full run-off triangle: dict of model quantities."""
    rows, cols, C = tri
    n = len(cols)
    f = [ref.average(tri, "weighted", None, j) for j in range(n - 1)]
    fc = [[None] * n for _ in range(n)]
    for i in range(n):
        fc[i][n - 1 - i] = C[i][n - 1 - i]
        for k in range(n - 2 - i, -1, -1):
            fc[i][k] = fc[i][k + 1] / f[k]
    inc = lambda m: [[m[i][0]] + [None if m[i][k] is None else m[i][k] - m[i][k - 1] for k in range(1, n)] for i in range(n)]
    fi, ai = inc(fc), inc(C)
    us = [[None if fi[i][k] is None or fi[i][k] == 0 else (ai[i][k] - fi[i][k]) / math.sqrt(abs(fi[i][k])) for k in range(n)] for i in range(n)]
    cells = n * (n + 1) // 2
    dof = cells - (n - 1) + n
    flat = [v for r in us for v in r if v is not None]
    adj = [[None if v is None else v * math.sqrt(cells / dof) for v in r] for r in us]
    return {"ldfs": f + [1.0], "fit_cum": fc, "fit_incr": fi, "incr": ai, "us": us, "adj": adj, "dof": dof,
            "scale": math.fsum(v * v for v in flat) / dof,
            "sampling": [v for i, r in enumerate(adj) for k, v in enumerate(r) if v is not None and i < n - 1 and k < n - 1 and v != 0]}
