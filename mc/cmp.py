"""Comparison of implementation objects with the reference model."""
import math
import datetime

RTOL = 1e-8


def isnan(v):
    if v is None:
        return True
    try:
        return math.isnan(float(v))
    except (TypeError, ValueError):
        return False


def close(a, b, scale=0.0, rtol=RTOL):
    """Equal up to rounding; `scale` is the size of the amounts a and b derive from."""
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    a, b = float(a), float(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-10 * scale


def size(m):
    return max([abs(v) for r in m for v in r if v is not None] or [0.0])


def frame(df):
    """(row labels, column labels, matrix with None for NaN) of a DataFrame."""
    m = [[None if isnan(v) else float(v) for v in r] for r in df.to_numpy().tolist()]
    return list(df.index), list(df.columns), m


def labels(xs):
    return [x if isinstance(x, str) else (int(x) if float(x) == int(x) else float(x)) for x in xs]


def tri_diff(df, tri, what, scale=None):
    """None, or a description of the first difference between df and a model triangle."""
    rows, cols, m = tri
    r, c, a = frame(df)
    if labels(r) != labels(rows):
        return "%s: rows %s, expected %s" % (what, r, rows)
    if labels(c) != labels(cols):
        return "%s: columns %s, expected %s" % (what, c, cols)
    s = size(m) if scale is None else scale
    for i in range(len(rows)):
        for j in range(len(cols)):
            if not close(a[i][j], m[i][j], s):
                return "%s: cell (%s, %s) is %r, expected %r" % (what, rows[i], cols[j], a[i][j], m[i][j])
    return None


def seq_diff(xs, ys, what, scale=0.0):
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return "%s: %d values %s, expected %d" % (what, len(xs), xs[:12], len(ys))
    for k, (a, b) in enumerate(zip(xs, ys)):
        if not close(a, b, scale):
            return "%s: value %d is %r, expected %r" % (what, k, a, b)
    return None


def canon(x, digits=10):
    """Canonical, hashable form of any object handed out by the code under test."""
    import numpy as np
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return ("df", canon(list(x.index)), canon(list(x.columns)), canon(x.to_numpy().tolist()))
    if isinstance(x, pd.Series):
        return ("s", canon(list(x.index)), canon(x.tolist()), str(x.name))
    if isinstance(x, np.ndarray):
        return ("a", canon(x.tolist()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, dict):
        return tuple((canon(k), canon(v)) for k, v in x.items())
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return float(x)
    if isinstance(x, (float, np.floating)):
        if math.isnan(x):
            return "nan"
        return float(x)
    if x is None:
        return "nan"
    if isinstance(x, str):
        return x
    return type(x).__name__


def same(x, y, scale=0.0, rtol=RTOL):
    """Canonical forms equal up to rounding."""
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(a, b, scale, rtol) for a, b in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        return close(x, y, scale, rtol)
    return x == y
