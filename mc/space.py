"""Finite input spaces shared by the checks."""
import itertools
import math

# ------------------------------------------------------------------ label schemes
SCHEMES = ["one", "year", "month", "zero", "gap", "wide", "hundred", "span"]


def labels(scheme, n, m=None):
    m = n if m is None else m
    if scheme == "one":
        return list(range(1, n + 1)), list(range(1, m + 1))
    if scheme == "year":
        return list(range(1981, 1981 + n)), list(range(1, m + 1))
    if scheme == "month":
        return list(range(2001, 2001 + n)), list(range(12, 12 * (m + 1), 12))
    if scheme == "zero":
        return list(range(n)), list(range(m))
    if scheme == "gap":
        o, d = [], []
        x = 1990
        for k in range(n):
            o.append(x)
            x += 1 + (k * k) % 4
        x = 3
        for k in range(m):
            d.append(x)
            x += 3 * (1 + k % 3)
        return o, d
    if scheme == "wide":
        return list(range(0, 5 * n, 5)), list(range(100, 100 + 7 * m, 7))
    if scheme == "hundred":          # numeric order differs from text order
        return list(range(8, 8 + n)), list(range(9, 9 + m))
    if scheme == "span":             # negative, zero, beyond 32 bits, side by side there
        o = [-40000, 0, 3000000000, 3000000001]
        d = [-7, 0, 3000000000, 3000000001]
        return (o + [o[-1] + 3 * k for k in range(1, n)])[:n], (d + [d[-1] + 12 * k for k in range(1, m)])[:m]
    raise KeyError(scheme)


# ---------------------------------------------------------------- generic amounts
W = [1.0, 0.8, 0.45, 0.22, 0.12, 0.07, 0.045, 0.03, 0.02, 0.014, 0.01, 0.008, 0.006, 0.005, 0.004]


def amount(i, j, variant=0):
    """A generic positive incremental amount: no ties, no exact proportions."""
    a = (i + 1) * 0.7548776662 + (j + 1) * 0.5698402910 + variant * 0.3247179572
    frac = a - math.floor(a)
    w = W[j] if j < len(W) else 0.003
    v = 1000.0 * w * (0.6 + 0.9 * frac) + 13.25 * i * w + 1.5
    return round(v, 2)


def grid(n, m, kind="runoff"):
    """
    Index pairs with an amount. runoff: the latest n origins of a book whose oldest
    origin has m periods; with n == m the usual triangle. full: no empty cell.
    stair2: two periods of development are observed per origin step.
    """
    if kind == "full":
        return [(i, j) for i in range(n) for j in range(m)]
    if kind == "runoff":
        return [(i, j) for i in range(n) for j in range(m) if i + j < max(n, m)]
    if kind == "stair2":
        return [(i, j) for i in range(n) for j in range(m) if j < max(1, m - 2 * i)]
    raise KeyError(kind)


def shape_cells(n, m=None, kind="runoff"):
    return grid(n, n if m is None else m, kind)


def runoff(n, variant=0, scale=1.0):
    return {(i, j): amount(i, j, variant) * scale for i in range(n) for j in range(n - i)}


def to_records(cells, scheme="one", n=None, m=None, order="sorted"):
    n = 1 + max(i for i, _ in cells) if n is None else n
    m = 1 + max(j for _, j in cells) if m is None else m
    o, d = labels(scheme, n, m)
    recs = [(o[i], d[j], v) for (i, j), v in sorted(cells.items())]
    return reorder(recs, order)


ORDERS = ["sorted", "reversed", "bydev", "bydevrev", "rotated", "interleaved"]


def reorder(recs, order):
    if order == "sorted":
        return list(recs)
    if order == "reversed":
        return list(recs)[::-1]
    if order == "bydev":
        return sorted(recs, key=lambda r: (r[1], r[0]))
    if order == "bydevrev":
        return sorted(recs, key=lambda r: (-r[1], r[0]))
    if order == "rotated":
        k = len(recs) // 2
        return list(recs[k:]) + list(recs[:k])
    if order == "interleaved":
        return list(recs[1::2]) + list(recs[0::2])
    if isinstance(order, (list, tuple)):
        return [recs[k] for k in order]
    raise KeyError(order)


def cumulate(cells):
    """Cumulative amounts of index-keyed incremental cells."""
    out = {}
    for (i, j) in sorted(cells):
        out[(i, j)] = math.fsum(v for (a, b), v in cells.items() if a == i and b <= j)
    return out


DATASETS = ["raa", "ta83", "amw09", "autoliab", "glre", "singinjury", "singproperty"]


# -------------------------------------------------------- cumulative paths by link ratio
def ratio_grids(n, alphabet, starts=None):
    """Every run-off triangle of n periods whose link ratios are taken from alphabet."""
    starts = starts or [100.0, 160.0, 90.0, 250.0, 130.0, 210.0][:n]
    cnt = [n - 1 - i for i in range(n)]
    for vs in itertools.product(alphabet, repeat=sum(cnt)):
        it = iter(vs)
        yield {"starts": starts, "ratios": [[next(it) for _ in range(c)] for c in cnt]}
