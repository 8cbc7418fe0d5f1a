"""T25: printed triangles and results show every row and column, amounts in whole units."""
import contextlib
import io
import itertools
import pandas as pd
import trikit
import mk
import space
from cmp import isnan

ALPHA = (0.4, 0.5, 1.5, 999.4, 999.6, 1000.0, 1234567.5, -0.6, -1250.5, 0.0, None, 98765432109.4)
OPTIONS = [
    {},
    {"display.max_rows": 2, "display.max_columns": 2},
    {"display.width": 20, "display.max_colwidth": 2, "display.min_rows": 1},
    {"display.precision": 1},
    {"display.float_format": "{:.1e}".format},
    {"display.large_repr": "info", "display.show_dimensions": True},
    {"display.expand_frame_repr": False, "display.notebook_repr_html": False, "display.multi_sparse": False},
    {"display.colheader_justify": "left", "display.chop_threshold": 5000.0},
]
KINDS = ("runoff", "full", "stair2")


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "cells": "every assignment of %d amounts (halves, negatives, zero, missing, 12 digits) to the 3 cells of a 2 x 2 triangle and every amount in "
                 "every cell of a 3 x 3 one; incremental and cumulative" % len(ALPHA),
        "shapes": "1..%d origins x 1..%d periods x %d kinds x %d label schemes; 45 x 45, 130 x 2, 2 x 130%s" % ((12, 12, len(KINDS), len(space.SCHEMES), ", 300 x 3, 3 x 300") if t else (6, 6, len(KINDS), 3, "")),
        "options": "%d pandas display settings" % len(OPTIONS),
        "results": "base_cl, mack_cl (alpha, dist), boot_cl (modes) x quantile lists x scales 1e-3..1e9 x label schemes x sizes; base_cl of 130 x 2 and 4 x 130",
    }


def cases(tier):
    t = tier == "thorough"
    for a in range(len(ALPHA)):
        for b in range(len(ALPHA)):
            yield {"k": "cells", "a": a, "b": b}
    for i, j in space.runoff(3):
        yield {"k": "one", "i": i, "j": j}
    for n in range(1, 13 if t else 7):
        for m in range(1, 13 if t else 7):
            yield {"k": "shape", "n": n, "m": m, "schemes": list(space.SCHEMES if t else ("one", "year", "wide"))}
    for n, m in [(45, 45), (130, 2), (2, 130)] + ([(300, 3), (3, 300)] if t else []):
        yield {"k": "shape", "n": n, "m": m, "schemes": ["month"]}
    for n, m in [(130, 2), (4, 130)] + ([(300, 3), (60, 60)] if t else []):
        yield {"k": "tall", "n": n, "m": m}
    for o in range(len(OPTIONS)):
        for n, scheme in ((4, "year"), (6, "month"), (9, "gap")) if t else ((4, "year"), (6, "gap")):
            yield {"k": "options", "o": o, "n": n, "scheme": scheme}
    for n in (4, 5, 6, 8, 10) if t else (4, 6):
        for scheme in space.SCHEMES if t else ("one", "month"):
            for scale in (1e-3, 1.0, 1e3, 1e6, 1e9):
                yield {"k": "results", "n": n, "scheme": scheme, "scale": scale}


def tri_of(recs, tt):
    return trikit.totri(mk.tabular(recs), tri_type=tt)


def shown(tok, v, dec):
    """Is tok the amount v with dec decimals and thousands separators?"""
    if isnan(v):
        return tok.lower() == "nan"
    try:
        x = float(tok.replace(",", ""))
    except ValueError:
        return False
    v = float(v)
    tie = 1e-9 * abs(v) + 1e-12
    texts = {("%0.*f" % (dec, y)) for y in (v, v - tie, v + tie)}
    texts |= {"{:,.{}f}".format(y, dec) for y in (v, v - tie, v + tie)}
    return tok in {s for s in texts if "," in s or abs(x) < 1000} or tok in ("0", "-0") and abs(v) <= 0.5 and dec == 0


def tri_text(obs, tri, what):
    s = str(tri)
    obs.step()
    obs.check(repr(tri) == s, "%s: repr and str differ" % what)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print(tri)
    obs.check(out.getvalue() == s + "\n", "%s: print shows something else" % what)
    lines = s.split("\n")
    if not obs.check([x for x in lines[0].split()] == [str(c) for c in tri.columns], "%s: header %r for columns %s" % (what, lines[0][:200], list(tri.columns)[:20])):
        return
    rows = [ln.split() for ln in lines[1:]]
    if not obs.check(len(rows) == len(tri.index), "%s: %d rows shown of %d: %r" % (what, len(rows), len(tri.index), s[:300])):
        return
    vals = tri.to_numpy().tolist()
    for lab, toks, vs in zip(tri.index, rows, vals):
        ok = toks[:1] == [str(lab)] and len(toks) == len(vs) + 1 and all(shown(x, v, 0) for x, v in zip(toks[1:], vs))
        if not obs.check(ok, "%s: row %s shown as %s, amounts %s" % (what, lab, toks[:20], vs[:20])):
            return


DEC = {"cldf": 5, "emergence": 5, "cv": 3}


def result_text(obs, r, what):
    s = str(r)
    obs.step()
    obs.check(repr(r) == s, "%s: repr and str differ" % what)
    df = r.summary
    lines = s.split("\n")
    cols = [str(c) for c in df.columns]
    if not obs.check(lines[0].split() == cols, "%s: header %r for columns %s" % (what, lines[0], cols)):
        return
    if not obs.check(len(lines) == len(df.index) + 1, "%s: %d rows shown of %d" % (what, len(lines) - 1, len(df.index))):
        return
    for lab, ln in zip(df.index, lines[1:]):
        toks = ln.split()
        vs = [(c, v) for c, v in zip(cols, df.loc[lab].tolist()) if not (c == "maturity" and str(v) == "")]
        ok = toks[:1] == [str(lab)] and len(toks) == len(vs) + 1 and all(
            (x == str(v)) if c == "maturity" else shown(x, v, DEC.get(c, 0)) for x, (c, v) in zip(toks[1:], vs))
        if not obs.check(ok, "%s: row %s shown as %s, values %s" % (what, lab, toks, vs)):
            return


def results(obs, tri, what, sims=3):
    result_text(obs, tri.base_cl(), what + " base")
    result_text(obs, tri.base_cl("simple-2", tail=1.05), what + " base simple-2")
    m = tri.shape[1]
    result_text(obs, tri.base_cl([1.5] * (m - 1), tail=1 / 3), what + " base own factors")
    for k, (alpha, dist) in enumerate(itertools.product((0, 1, 2), ("norm", "lognorm"))):
        q, two = [([.75, .95], False), ([.5], True), ([.999, .0125, .3333], False), ([.9, .5], True), (.6, False), ([.75, .95], True)][k]
        result_text(obs, tri.mack_cl(alpha=alpha, dist=dist, q=q, two_sided=two), "%s mack %s %s %s" % (what, alpha, dist, q))
    for par, q, two in ((False, [.75, .95], False), (True, [.999, .0125], True)):
        result_text(obs, tri.boot_cl(sims=sims, random_state=4, parametric=par, q=q, two_sided=two), "%s boot %s" % (what, par))


def run(case, obs):
    if case["k"] == "cells":
        for c in ALPHA:
            recs = [(1, 1, ALPHA[case["a"]]), (1, 2, ALPHA[case["b"]]), (2, 1, c)]
            for tt in ("incr", "cum"):
                if case["a"] == case["b"] == 10 or tt == "cum" and None in (recs[0][2], recs[2][2]) and recs[1][2] is None:
                    continue
                obs.state(recs, tt)
                tri_text(obs, tri_of(recs, tt), "%s %s" % (tt, recs))
    elif case["k"] == "one":
        for v in ALPHA:
            cells = space.runoff(3)
            cells[(case["i"], case["j"])] = v
            if v is None and (case["i"], case["j"]) in ((0, 2), (2, 0)):
                continue
            recs = [(1990 + i, j + 1, x) for (i, j), x in sorted(cells.items())]
            for tt in ("incr", "cum"):
                obs.state(recs, tt)
                tri_text(obs, tri_of(recs, tt), "%s %s" % (tt, recs))
    elif case["k"] == "shape":
        for kind, scheme in itertools.product(KINDS, case["schemes"]):
            recs = mk.recs_of({"shape": [case["n"], case["m"]], "kind": kind, "scheme": scheme, "scale": 37.0})
            for tt in ("incr", "cum"):
                obs.state(recs, tt)
                tri_text(obs, tri_of(recs, tt), "%d x %d %s %s %s" % (case["n"], case["m"], kind, scheme, tt))
    elif case["k"] == "tall":
        recs = mk.recs_of({"shape": [case["n"], case["m"]], "scheme": "month", "scale": 37.0})
        obs.state(recs)
        tri = tri_of(recs, "cum")
        tri_text(obs, tri, "%d x %d" % (case["n"], case["m"]))
        result_text(obs, tri.base_cl(), "%d x %d base" % (case["n"], case["m"]))
    elif case["k"] == "options":
        tri = tri_of(mk.recs_of({"shape": [case["n"], case["n"]], "scheme": case["scheme"], "scale": 10.0}), "cum")
        opt = OPTIONS[case["o"]]
        with pd.option_context(*[x for kv in opt.items() for x in kv]) if opt else contextlib.nullcontext():
            obs.state(case)
            tri_text(obs, tri, "cum, options %s" % sorted(opt))
            tri_text(obs, tri.to_incr(), "incr, options %s" % sorted(opt))
            results(obs, tri, "options %s" % sorted(opt))
    else:
        tri = tri_of(mk.recs_of({"shape": [case["n"], case["n"]], "scheme": case["scheme"], "scale": case["scale"]}), "cum")
        obs.state(case)
        tri_text(obs, tri, "triangle")
        results(obs, tri, "n=%d scale=%g" % (case["n"], case["scale"]))
    obs.trace()
