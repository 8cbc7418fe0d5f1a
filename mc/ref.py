"""
Reference model of trikit in plain Python: lists and loops only, no numpy, pandas or
trikit code. A triangle is (rows, cols, m): sorted origin labels, sorted development
labels and a matrix of floats in which None is an empty cell.
"""
import math
from statistics import NormalDist


# ---------------------------------------------------------------- construction
def cells_of(records):
    acc = {}
    for o, d, v in records:
        if v is None or v != v:
            continue
        acc.setdefault((o, d), []).append(v)
    return {k: math.fsum(v) for k, v in acc.items()}


def labels_of(cells):
    return sorted({k[0] for k in cells}), sorted({k[1] for k in cells})


def incr_tri(records):
    cells = cells_of(records)
    rows, cols = labels_of(cells)
    m = [[cells.get((o, d)) for d in cols] for o in rows]
    for r in m:
        if r[0] is not None and r[0] <= 0:
            r[0] = 1.0
    return rows, cols, m


def cum_tri(records):
    cells = cells_of(records)
    rows, cols = labels_of(cells)
    m = []
    for o in rows:
        r, seen = [], []
        for d in cols:
            v = cells.get((o, d))
            if v is None:
                r.append(None)
            else:
                seen.append(v)
                r.append(math.fsum(seen))
        if r[0] is not None and r[0] <= 0:
            r[0] = 1.0
        m.append(r)
    complete(m)
    return rows, cols, m


def complete(m):
    """Repeat the previous amount in gaps above the last observed origin of a period."""
    last = [max((i for i in range(len(m)) if m[i][j] is not None), default=-1)
            for j in range(len(m[0]))]
    for i, r in enumerate(m):
        if r[0] is None:
            r[0] = 1.0
        for j in range(1, len(r)):
            if r[j] is None and i <= last[j]:
                r[j] = r[j - 1]


def diff(tri):
    """Incremental amounts of a cumulative triangle (to_incr)."""
    rows, cols, m = tri
    out = []
    for r in m:
        q = [r[0]]
        for j in range(1, len(r)):
            q.append(None if r[j] is None or r[j - 1] is None else r[j] - r[j - 1])
        if q[0] is not None and q[0] <= 0:
            q[0] = 1.0
        out.append(q)
    return rows, cols, out


def tbl(tri, dropna=True):
    rows, cols, m = tri
    return [(o, d, m[i][j]) for i, o in enumerate(rows) for j, d in enumerate(cols)
            if not (dropna and m[i][j] is None)]


# -------------------------------------------------------------- structural views
def last_valid_row(m, j):
    return max(i for i in range(len(m)) if m[i][j] is not None)


def last_valid_col(r):
    return max(j for j in range(len(r)) if r[j] is not None)


def triind(tri):
    rows, cols, m = tri
    lv = [last_valid_row(m, j) for j in range(len(cols))]
    return [[1 if i > lv[j] else 0 for j in range(len(cols))] for i in range(len(rows))]


def maturity_idx(tri):
    return [max(j for j, v in enumerate(r) if v == 0) for r in triind(tri)]


def latest(tri):
    rows, cols, m = tri
    out = []
    for i, o in enumerate(rows):
        j = last_valid_col(m[i])
        out.append((o, cols[j], m[i][j]))
    return out


# ------------------------------------------------------------------ link ratios
def a2a(tri):
    """Link ratios of a cumulative triangle: {(origin, dev): ratio}."""
    rows, cols, m = tri
    out = {}
    for i, o in enumerate(rows):
        for j in range(len(cols) - 1):
            if m[i][j] is not None and m[i][j + 1] is not None:
                out[(o, cols[j])] = m[i][j + 1] / m[i][j]
    return out


def average(tri, kind, window, j, excl=frozenset()):
    """
    Average link ratio of development column j over the latest `window` origins
    (None: all), leaving out the excluded (origin, dev) pairs.
    """
    rows, cols, m = tri
    obs = [i for i in range(len(rows)) if m[i][j] is not None and m[i][j + 1] is not None]
    if window is not None:
        obs = obs[max(0, len(obs) - window):]
    obs = [i for i in obs if (rows[i], cols[j]) not in excl]
    if not obs:
        return None
    x = [m[i][j + 1] / m[i][j] for i in obs]
    if kind == "simple":
        return math.fsum(x) / len(x)
    if kind == "geometric":
        return math.exp(math.fsum(math.log(v) for v in x) / len(x))
    if kind == "weighted":
        return math.fsum(m[i][j + 1] for i in obs) / math.fsum(m[i][j] for i in obs)
    if kind == "medial":
        x = sorted(x)
        if len(x) > 2:
            x = x[1:-1]
        return math.fsum(x) / len(x)
    raise KeyError(kind)


def average_table(tri, excl=frozenset()):
    """{(label, dev): average} for every average kind and window."""
    rows, cols, m = tri
    ratios = a2a(tri)
    nrow = len({o for o, _ in ratios})
    out = {}
    for kind in ("simple", "geometric", "medial", "weighted"):
        for w in list(range(1, nrow)) + [None]:
            lab = "all-" + kind if w is None else "%s-%d" % (kind, w)
            for j in range(len(cols) - 1):
                out[(lab, cols[j])] = average(tri, kind, w, j, excl)
    return out


# ----------------------------------------------------------------- chain ladder
def cumprod_back(ldfs):
    out, p = [], 1.0
    for f in reversed(ldfs):
        p *= f
        out.append(p)
    return out[::-1]


def square(tri, ldfs):
    """Development path of every origin: observed amounts, then chained forecasts."""
    rows, cols, m = tri
    ind = triind(tri)
    out = []
    for i in range(len(rows)):
        r = list(m[i])
        for j in range(1, len(cols)):
            if ind[i][j] == 1:
                r[j] = r[j - 1] * ldfs[j - 1]
        out.append(r)
    return out


def chain_ladder(tri, ldfs):
    """ldfs has one factor per development period, the last being the tail."""
    rows, cols, m = tri
    cl = cumprod_back(ldfs)
    sq = square(tri, ldfs)
    mat = maturity_idx(tri)
    lat = [v for _, _, v in latest(tri)]
    ult = [lat[i] * cl[mat[i]] for i in range(len(rows))]
    return {
        "maturity": [cols[k] for k in mat], "cldf": [cl[k] for k in mat],
        "emergence": [1 / cl[k] for k in mat], "latest": lat, "ultimate": ult,
        "reserve": [u - l for u, l in zip(ult, lat)], "cldfs": cl,
        "trisqrd": sq, "sq_ultimate": [r[-1] * ldfs[-1] for r in sq],
    }


# ------------------------------------------------------------------------- Mack
def mack(tri, alpha, excl=frozenset()):
    """
    Mack (1993, 1999) on a full run-off triangle with n origins and periods, with
    the recursive parameter error of Murphy (2007).
    """
    rows, cols, C = tri
    n = len(rows)
    f, s2, fv = [], [], []
    for k in range(n - 1):
        obs = [i for i in range(n - 1 - k) if (rows[i], cols[k]) not in excl]
        w = [C[i][k] ** alpha for i in obs]
        F = [C[i][k + 1] / C[i][k] for i in obs]
        fk = math.fsum(a * b for a, b in zip(w, F)) / math.fsum(w)
        f.append(fk)
        if k < n - 2:
            s2.append(math.fsum(a * (b - fk) ** 2 for a, b in zip(w, F)) / (n - k - 2))
    s2.append(min(s2[-1] ** 2 / s2[-2], s2[-1], s2[-2]))
    for k in range(n - 1):
        obs = [i for i in range(n - 1 - k) if (rows[i], cols[k]) not in excl]
        fv.append(s2[k] / math.fsum(C[i][k] ** alpha for i in obs))
    f.append(1.0)
    cl = chain_ladder(tri, f)
    sq = cl["trisqrd"]
    proc, par = [0.0] * n, [0.0] * n
    for i in range(1, n):
        p = q = 0.0
        for k in range(n - 1 - i, n - 1):
            c = sq[i][k]
            p = f[k] ** 2 * p + c ** (2 - alpha) * s2[k]
            q = f[k] ** 2 * q + c ** 2 * fv[k] + fv[k] * q
        proc[i], par[i] = p, q
    mse = [a + b for a, b in zip(proc, par)]
    U = cl["ultimate"]
    tot = 0.0
    for i in range(1, n):
        cov = math.fsum(fv[k] / f[k] ** 2 for k in range(n - 1 - i, n - 1))
        tot += mse[i] + 2 * U[i] * math.fsum(U[i + 1:]) * cov
    cl.update(ldfs=f, devpvar=s2, ldfvar=fv, process=proc, parameter=par,
              mse=mse, std_error=[math.sqrt(v) for v in mse], total_se=math.sqrt(tot))
    return cl


_N = NormalDist()


def norm_ppf(p):
    return _N.inv_cdf(p)


def ranks(xs):
    """Ranks of positive numbers; ties, up to rounding of decimal amounts, get their mean rank."""
    tie = lambda x, y: abs(x - y) <= 1e-11 * (x + y)
    return [1 + sum(y < x and not tie(x, y) for y in xs) + 0.5 * (sum(tie(x, y) for y in xs) - 1) for x in xs]


def median(xs):
    xs = sorted(xs)
    k = len(xs)
    return xs[k // 2] if k % 2 else 0.5 * (xs[k // 2 - 1] + xs[k // 2])


def spearman(tri):
    """Mack's weighted rank correlation of adjacent development periods."""
    rows, cols, C = tri
    n = len(cols)
    num = den = 0.0
    for k in range(2, n - 1):
        # factors of period k+... against those of the preceding period
        m_ = n - k
        r = ranks([C[i][k] / C[i][k - 1] for i in range(m_)])
        s = ranks([C[i][k - 1] / C[i][k - 2] for i in range(m_)])
        T = 1 - 6 * sum((a - b) ** 2 for a, b in zip(r, s)) / (m_ ** 3 - m_)
        num += (m_ - 1) * T
        den += m_ - 1
    return num / den


def rank_tables(tri):
    """{"r_k": ranks of the ratios of period k, "s_k": of those of period k - 1 without its last origin} for the pairs the test compares."""
    rows, cols, C = tri
    n = len(cols)
    out = {}
    for k in range(2, n - 1):
        m_ = n - k
        out["r_%d" % k] = dict(zip(rows, ranks([C[i][k] / C[i][k - 1] for i in range(m_)])))
        out["s_%d" % k] = dict(zip(rows, ranks([C[i][k - 1] / C[i][k - 2] for i in range(m_)])))
    return out


def corr_bound(n, p):
    return norm_ppf((1 + p) / 2) / math.sqrt((n - 2) * (n - 3) / 2)


def cy_effects(tri):
    """Mack's calendar year test: (Z, E[Z], Var[Z]) summed over the diagonals."""
    rows, cols, C = tri
    n = len(cols)
    side = {}
    for k in range(n - 1):
        x = [C[i][k + 1] / C[i][k] for i in range(n - 1 - k)]
        md = median(x)
        for i, v in enumerate(x):
            side[(i, k)] = 0 if abs(v - md) <= 1e-8 + 1e-5 * abs(md) else (1 if v > md else -1)
    Z = E = V = 0.0
    for d in range(1, n - 1):            # calendar diagonals of link ratios, i + k = d
        S = sum(1 for i in range(d + 1) if side[(i, d - i)] == -1)
        L = sum(1 for i in range(d + 1) if side[(i, d - i)] == 1)
        m_ = S + L
        Z += min(S, L)
        if m_ >= 1:
            b = math.comb(m_ - 1, (m_ - 1) // 2)
            e = m_ / 2 - b * m_ / 2 ** m_
            E += e
            V += m_ * (m_ - 1) / 4 - b * m_ * (m_ - 1) / 2 ** m_ + e - e * e
    return Z, E, V


# -------------------------------------------------------------------- quantiles
def percentile(xs, q, method="linear"):
    xs = sorted(xs)
    h = (len(xs) - 1) * q
    # absorb rounding so that an exact order statistic is recognised
    if abs(h - round(h)) < 1e-9:
        h = float(round(h))
    lo, hi = int(math.floor(h)), int(math.ceil(h))
    if method == "lower":
        return xs[lo]
    if method == "higher":
        return xs[hi]
    if method == "midpoint":
        return 0.5 * (xs[lo] + xs[hi])
    if method == "nearest":
        fr = h - lo
        if fr < 0.5:
            return xs[lo]
        if fr > 0.5:
            return xs[hi]
        return xs[lo] if lo % 2 == 0 else xs[hi]
    return xs[lo] + (h - lo) * (xs[hi] - xs[lo])


def std1(xs):
    if len(xs) < 2:
        return None
    mu = math.fsum(xs) / len(xs)
    return math.sqrt(math.fsum((x - mu) ** 2 for x in xs) / (len(xs) - 1))
