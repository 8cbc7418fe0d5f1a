"""T23: exhibits draw the numbers of the result they belong to."""
import os
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
from scipy import stats
import trikit
import mk
import space

SCRATCH = os.environ.get("TRIKIT_MC_SCRATCH", "/tmp")
STYLES = ["darkgrid", "whitegrid", "dark", "white", "ticks"]
CONTEXTS = ["notebook", "paper", "talk", "poster"]
EXHIBITS = ["combined", "faceted", "base", "mack", "diag", "boot", "hist"]
MIN = {"combined": 2, "faceted": 2, "base": 2, "mack": 4, "diag": 4, "boot": 3, "hist": 3}


def BOUNDS(tier):
    t = tier == "thorough"
    return {"exhibits": EXHIBITS, "triangles": "run-off triangles of the exhibit's least number of periods to %d periods, shapes with unequal counts (triangle and base_cl exhibits), raa, ta83" % (8 if t else 5),
            "labels": space.SCHEMES, "scales": [1e-3, 1, 1e6], "col_wrap": "1-5", "styles": STYLES, "contexts": CONTEXTS,
            "options": "colours, marker overrides, hue_kws, figure files (png, pdf, svg), q in 0.05-0.99, dist, tail, factor selection, sims, negative development",
            "pairs": "every ordered pair of exhibits drawn one after the other"}


def cases(tier):
    t = tier == "thorough"
    for ex in EXHIBITS:
        lo = MIN[ex]
        for n in range(lo, 9 if t else 6):
            yield {"ex": ex, "shape": [n, n]}
            if t:
                for v in (1, 2):
                    yield {"ex": ex, "shape": [n, n], "variant": v}
        for data in ("raa", "ta83"):
            yield {"ex": ex, "data": data}
        for sch in space.SCHEMES:
            for n in ((lo, lo + 1, lo + 2) if t else (lo + 1,)):
                yield {"ex": ex, "shape": [n, n], "scheme": sch}
        for sc in (1e-3, 1e6):
            yield {"ex": ex, "shape": [lo + 1, lo + 1], "scale": sc}
        yield {"ex": ex, "neg": 1, "shape": [4, 4]}
        for nm in ("png", "pdf", "svg"):
            if ex in ("base", "mack", "boot", "hist"):
                yield {"ex": ex, "shape": [4, 4], "path": nm}
        if ex not in ("combined", "diag"):
            for cw in range(1, 6):
                yield {"ex": ex, "shape": [4, 4], "opt": {"col_wrap": cw}}
            for k, st in enumerate(STYLES):
                for j, cx in enumerate(CONTEXTS):
                    if t or (k + j) % 4 == 0:
                        yield {"ex": ex, "shape": [4, 4], "opt": {"axes_style": st, "context": cx}}
    for ex in ("combined", "faceted", "base"):
        for n, m, kind in ((2, 4, "runoff"), (5, 3, "runoff"), (3, 3, "full"), (3, 2, "full"), (3, 5, "stair2"), (1, 3, "full")):
            if ex != "base" or kind != "full" or n > 1:
                yield {"ex": ex, "shape": [n, m], "kind": kind}
    for col in ("#10AB3f", "red"):
        yield {"ex": "faceted", "shape": [4, 4], "opt": {"color": col}}
        yield {"ex": "hist", "shape": [4, 4], "opt": {"color": col}}
        for ex in ("base", "boot"):
            yield {"ex": ex, "shape": [4, 4], "opt": {"actuals_color": col}}
            yield {"ex": ex, "shape": [4, 4], "opt": {"forecasts_color": col}}
        yield {"ex": "boot", "shape": [4, 4], "opt": {"fill_color": col, "fill_alpha": .25}}
        yield {"ex": "mack", "shape": [4, 4], "opt": {"dist_color": col}}
        yield {"ex": "mack", "shape": [4, 4], "opt": {"q_color": col}}
    yield {"ex": "base", "shape": [4, 4], "opt": {"marker": "s", "markersize": 3}}
    yield {"ex": "base", "shape": [4, 4], "opt": {"hue_kws": {"marker": ["s", "v"], "markersize": [3, 4]}}}
    yield {"ex": "boot", "shape": [4, 4], "opt": {"hue_kws": {"marker": ["s", "v", None, None], "markersize": [3, 4, 1, 1]}}}
    for bins in (1, 5, 40):
        yield {"ex": "hist", "shape": [4, 4], "opt": {"bins": bins}}
    for q in (0, 1):
        yield {"ex": "boot", "shape": [4, 4], "opt": {"q": q}}
        yield {"ex": "mack", "shape": [4, 4], "opt": {"q": q}}
    for q in (.05, .5, .75, .8, .9, .99, .995):
        yield {"ex": "mack", "shape": [4, 4], "opt": {"q": q}}
        yield {"ex": "mack", "shape": [5, 5], "opt": {"q": q}, "arg": {"dist": "norm"}}
        yield {"ex": "boot", "shape": [4, 4], "opt": {"q": q}}
    for arg in ({"dist": "norm"}, {"alpha": 0}, {"alpha": 2}, {"alpha": 2, "dist": "norm"}):
        for ex in ("mack", "diag"):
            yield {"ex": ex, "shape": [5, 5], "arg": arg}
    for arg in ({"tail": 1.1}, {"tail": .9}, {"sel": "simple-2"}, {"sel": "all-geometric", "tail": 1.25}, {"sel": [1.5, .8, 1.05]}):
        yield {"ex": "base", "shape": [4, 4], "arg": arg}
    for arg in ({"sims": 1}, {"sims": 2}, {"sims": 50, "parametric": True}, {"sims": 200}):
        for ex in ("boot", "hist"):
            yield {"ex": ex, "shape": [4, 4], "arg": arg}
    for a in EXHIBITS:
        for b in EXHIBITS:
            yield {"ex": a, "then": b, "shape": [4, 4]}


def run(case, obs):
    recs = mk.recs_of(case)
    if case.get("neg"):                       # negative development in the second and third period
        ds = sorted({r[1] for r in recs})
        recs = [(o, d, -v / 3 if d == ds[2] or (d == ds[1] and o % 2) else v) for o, d, v in recs]
    tri = trikit.totri(mk.tabular(recs))
    made = []
    for ex in [case["ex"]] + ([case["then"]] if "then" in case else []):
        obs.state(ex, case.get("then"), repr(sorted(case.items(), key=str)))
        obs.step()
        one(case, obs, tri, ex, recs)
        if obs.fails:
            return
    obs.trace()


def one(case, obs, tri, ex, recs):
    plt.close("all")
    arg, opt = dict(case.get("arg", {})), dict(case.get("opt", {}))
    path = None
    if "path" in case:
        path = os.path.join(SCRATCH, "exhibit-%d.%s" % (os.getpid(), case["path"]))
        if os.path.exists(path):
            os.remove(path)
        opt["exhibit_path"] = path
    try:
        if ex in ("combined", "faceted"):
            tri.plot(display=ex, **opt)
            res = None
        elif ex == "base":
            res = tri.base_cl(**arg)
            res.plot(**opt)
        elif ex in ("mack", "diag"):
            if case.get("neg"):
                arg["dist"] = "norm"
            res = tri.mack_cl(**arg)
            (res.plot if ex == "mack" else res.diagnostics)(**opt)
        else:
            res = tri.boot_cl(random_state=7, **{"sims": 30, **arg})
            (res.plot if ex == "boot" else res.hist)(**opt)
        figs = [plt.figure(k) for k in plt.get_fignums()]
        if len(figs) != 1:
            return obs.fail("%s: %d figures" % (ex, len(figs)))
        if path is None:
            figs[0].canvas.draw()
        elif not (os.path.exists(path) and os.path.getsize(path) > 500):
            return obs.fail("%s: exhibit_path %s was not written" % (ex, path))
        globals()["see_" + ex](case, obs, tri, res, figs[0], opt, arg)
    finally:
        plt.close("all")
        if path and os.path.exists(path):
            os.remove(path)


# ------------------------------------------------------------------- reading a figure
def xy(line):
    x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
    return [(a, b) for a, b in zip(x, y) if not (np.isnan(a) or np.isnan(b))]


def vline(line):
    x = line.get_xdata()
    return len(x) == 2 and x[0] == x[1] and list(line.get_ydata()) == [0, 1]


def texts(ax):
    return [t.get_text() for t in ax.texts] + [ax.get_title(), ax.get_title(loc="left")]


def near(a, b, tol=1e-8):
    return len(a) == len(b) and all(p == q or abs(p - q) <= tol * max(1.0, abs(p), abs(q)) for u, v in zip(a, b) for p, q in zip(u, v))


def facets(fig, obs, names):
    """Facet of every name; each facet shows exactly one of the names."""
    out = {}
    for ax in fig.axes:
        hit = [n for n in names if str(n) in texts(ax)]
        if len(hit) != 1 or hit[0] in out:
            obs.fail("facet labelled %s, expected exactly one of %s" % (texts(ax), [str(n) for n in names if n not in out]))
            return None
        out[hit[0]] = ax
    if set(out) != set(names):
        obs.fail("facets for %s, expected %s" % (list(out), list(names)))
        return None
    if list(out) != list(names):
        obs.fail("facets in order %s, expected %s" % (list(out), list(names)))
        return None
    return out


def color(c):
    return tuple(round(v, 6) for v in to_rgba(c))


def path_of(tri, o):
    return [(float(d), float(tri.at[o, d])) for d in tri.columns if not np.isnan(tri.at[o, d])]


def legend(ax):
    return [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []


# -------------------------------------------------------------------------- exhibits
def see_combined(case, obs, tri, res, fig, opt, arg):
    ax = fig.axes[0]
    got = {l.get_label(): xy(l) for l in ax.get_lines()}
    want = {str(o): path_of(tri, o) for o in tri.index}
    if list(got) != list(want):
        return obs.fail("combined: lines for %s, expected %s" % (list(got), list(want)))
    for o in want:
        obs.check(near(got[o], want[o]), lambda: "combined: origin %s drawn as %s, triangle holds %s" % (o, got[o], want[o]))
    obs.check(legend(ax) == list(want), lambda: "combined: legend %s, expected %s" % (legend(ax), list(want)))
    obs.check(len({color(l.get_color()) for l in ax.get_lines()}) == len(want), "combined: origins share a colour")
    lo, hi = ax.get_ylim()
    obs.check(all(y <= hi * (1 + 1e-12) for p in want.values() for _, y in p), "combined: amounts above the axis limit")


def see_faceted(case, obs, tri, res, fig, opt, arg):
    fs = facets(fig, obs, list(tri.index))
    if fs is None:
        return
    for o, ax in fs.items():
        ls = [l for l in ax.get_lines() if xy(l)]
        want = path_of(tri, o)
        obs.check(len(ls) == 1 and near(xy(ls[0]), want), lambda: "faceted: origin %s drawn as %s, triangle holds %s" % (o, [xy(l) for l in ls], want))
        if "color" in opt and ls:
            obs.check(color(ls[0].get_color()) == color(opt["color"]), lambda: "faceted: colour %s requested, drawn in %s" % (opt["color"], ls[0].get_color()))


def development(res, tri):
    """{origin: (actual points, forecast points with None as position of the ultimate)}"""
    devs = [d for d in res.trisqrd.columns if d != "ultimate"]
    out = {}
    for o in tri.index:
        act = path_of(tri, o)
        last = act[-1][0]
        fc = [act[-1]] + [(float(d), float(res.trisqrd.at[o, d])) for d in devs if d > last]
        out[o] = (act, fc, float(res.summary.at[o, "ultimate"]))
    return out


def see_facet_lines(obs, what, o, got, act, fc, ult, lastdev):
    """Actual and forecast lines of a facet."""
    f = got.get("forecast", [])
    ok = obs.check(near(got.get("actual", []), act), lambda: "%s: origin %s actuals drawn as %s, expected %s" % (what, o, got.get("actual"), act))
    ok = obs.check(f and near(f[:-1], fc), lambda: "%s: origin %s forecasts drawn as %s, expected %s" % (what, o, f, fc)) and ok
    return obs.check(f and f[-1][0] > lastdev and near(f[-1:], [(f[-1][0], ult)]),
                     lambda: "%s: origin %s ultimate drawn at %s, expected %s" % (what, o, f[-1:], ult)) and ok


def ult_tick(obs, what, ax, x):
    labs = {float(t): l.get_text() for t, l in zip(ax.get_xticks(), ax.get_xticklabels())}
    obs.check(labs.get(x) == "ult" and all(l == "%d" % t for t, l in labs.items() if t != x), lambda: "%s: ticks of the development axis %s, ultimate at %s" % (what, labs, x))


def see_markers(obs, what, ls, opt):
    for lab, key in (("forecast", "forecasts_color"), ("actual", "actuals_color")):
        if key in opt:
            obs.check(color(ls[lab].get_markerfacecolor()) == color(opt[key]), lambda: "%s: %s=%s requested, markers drawn in %s" % (what, key, opt[key], ls[lab].get_markerfacecolor()))
    for k, lab in enumerate(("forecast", "actual")):
        for key in ("marker", "markersize"):
            want = opt["hue_kws"][key][k] if "hue_kws" in opt else opt.get(key)
            if want is not None and lab in ls:
                got = getattr(ls[lab], "get_" + key)()
                obs.check(got == want, lambda: "%s: %s of %s is %s, requested %s" % (what, key, lab, got, want))


def see_base(case, obs, tri, res, fig, opt, arg):
    fs = facets(fig, obs, list(tri.index) + ["total"])
    if fs is None:
        return
    dv = development(res, tri)
    lastdev = float(tri.columns[-1])
    for o, (act, fc, ult) in dv.items():
        ls = {l.get_label(): l for l in fs[o].get_lines() if xy(l)}
        got = {k: xy(l) for k, l in ls.items()}
        if not see_facet_lines(obs, "base", o, got, act, fc, ult, lastdev):
            return
        see_markers(obs, "base", ls, opt)
        ult_tick(obs, "base", fs[o], got["forecast"][-1][0])
        obs.check(max(fs[o].get_yticks()) >= max([y for _, y in act + fc] + [ult]) * (1 - 1e-12), "base: amounts above the last tick")
    tot = {l.get_label(): xy(l) for l in fs["total"].get_lines() if xy(l)}
    sums = {}
    for act, fc, ult in dv.values():
        for d, v in fc:
            sums[d] = sums.get(d, 0.0) + v
    f = tot.get("forecast", [])
    obs.check(set(tot) == {"forecast"} and f and near(f[:-1], sorted(sums.items())) and f[-1][0] > lastdev
              and near([(0, f[-1][1])], [(0, res.summary.at["total", "ultimate"])]),
              lambda: "base: total drawn as %s, expected %s, then ultimate %s" % (tot, sorted(sums.items()), res.summary.at["total", "ultimate"]))


def lognormal(m, s):
    v = np.log(1 + (s / m) ** 2)
    return stats.lognorm(np.sqrt(v), scale=np.exp(np.log(m) - v / 2))


def dist_of(res, o, arg, case):
    m, s = float(res.summary.at[o, "reserve"]), float(res.summary.at[o, "std_error"])
    return stats.norm(m, s) if arg.get("dist") == "norm" else lognormal(m, s)


def density(obs, what, o, pts, rv):
    x, y = np.array(pts).T if pts else (np.zeros(1), np.zeros(1))
    obs.check(len(pts) > 20 and rv.cdf(x[0]) < .01 and rv.cdf(x[-1]) > .99 and np.all(np.diff(x) > 0)
              and np.allclose(y, rv.pdf(x), rtol=1e-6, atol=1e-12 * max(1e-300, rv.pdf(rv.mean()))),
              lambda: "%s: density of %s is not that of mean %s and standard deviation %s" % (what, o, rv.mean(), rv.std()))


def suffix(q):
    p = ("%.5f" % (100 * q)).rstrip("0").rstrip(".")
    if "." in p or p in ("11", "12", "13"):
        return p + "th"
    return p + {"1": "st", "2": "nd", "3": "rd"}.get(p[-1], "th")


def see_mack(case, obs, tri, res, fig, opt, arg):
    names = list(tri.index)[1:] + ["total"]
    fs = facets_multi(fig, obs, names)
    if fs is None:
        return
    q = opt.get("q", .95)
    for o, ax in fs.items():
        rv = dist_of(res, o, arg, case)
        dens = [l for l in ax.get_lines() if len(l.get_xdata()) > 2]
        if not obs.check(len(dens) == 1, lambda: "mack: %d densities for %s" % (len(dens), o)):
            return
        density(obs, "mack", o, xy(dens[0]), rv)
        vs = [l for l in ax.get_lines() if vline(l)]
        got = sorted(float(l.get_xdata()[0]) for l in vs)
        want = sorted([rv.mean(), rv.ppf(q)])
        obs.check(near([got], [want], 1e-6), lambda: "mack: %s vertical lines at %s, mean and %s quantile are %s" % (o, got, q, want))
        for s in ("mean = {:,.0f}".format(rv.mean()), "{} = {:,.0f}".format(suffix(q), rv.ppf(q))):
            val = float(s.split("= ")[1].replace(",", ""))
            if abs(val) < 1e12:
                hit = [t for t in texts(ax) if t.split(" = ")[0] == s.split(" = ")[0]]
                obs.check(len(hit) == 1 and abs(float(hit[0].split("= ")[1].replace(",", "")) - val) <= 1, lambda: "mack: annotations %s of %s, expected %s" % (texts(ax), o, s))
        if "dist_color" in opt:
            obs.check(color(dens[0].get_color()) == color(opt["dist_color"]), "mack: density not in dist_color")
        if "q_color" in opt:
            obs.check(all(color(l.get_color()) == color(opt["q_color"]) for l in vs), "mack: lines not in q_color")


def facets_multi(fig, obs, names):
    """Like facets; a label may be repeated within a facet."""
    return facets(fig, obs, names)


def standardised(groups):
    """Residuals over the root of their mean square, for groups of two or more."""
    out = []
    for t, rs in groups:
        if len(rs) > 1:
            s = (sum(r * r for r in rs) / len(rs)) ** .5
            out += [(float(t), r / s) for r in rs]
    return sorted(out)


def see_diag(case, obs, tri, res, fig, opt, arg):
    ax = fig.axes
    if not obs.check(len(ax) == 4, "diagnostics: %d facets" % len(ax)):
        return
    rv = dist_of(res, "total", arg, case)
    dens = [l for l in ax[0].get_lines() if len(l.get_xdata()) > 2]
    density(obs, "diagnostics", "total", xy(dens[0]) if len(dens) == 1 else [], rv)
    vs = [float(l.get_xdata()[0]) for l in ax[0].get_lines() if vline(l)]
    m = float(res.summary.at["total", "reserve"])
    obs.check(near([vs], [[m]]), lambda: "diagnostics: mean drawn at %s, total reserve is %s" % (vs, m))
    obs.check(any("{:,.0f}".format(m) in t for t in texts(ax[0])), lambda: "diagnostics: annotations %s, total reserve %s" % (texts(ax[0]), m))
    got = {l.get_label(): xy(l) for l in ax[1].get_lines()}
    want = {str(o): [(float(d), float(res.trisqrd.at[o, d])) for d in tri.columns] for o in tri.index}
    obs.check(list(got) == list(want) and all(near(got[o], want[o]) for o in want), lambda: "diagnostics: development drawn as %s, squared triangle %s" % (got, want))
    obs.check(legend(ax[1]) == list(want), lambda: "diagnostics: legend %s" % legend(ax[1]))
    f = {d: float(res.ldfs[d]) for d in tri.columns}
    cols = list(tri.columns)
    resid = {(o, d): float(tri.at[o, d] * f[d] - tri.at[o, e]) for d, e in zip(cols, cols[1:]) for o in tri.index if not np.isnan(tri.at[o, e])}
    bydev = standardised([(d, [v for (o, x), v in resid.items() if x == d]) for d in cols[:-1]])
    byorg = standardised([(o, [v for (x, d), v in resid.items() if x == o]) for o in tri.index])
    for k, want in ((2, bydev), (3, byorg)):
        pts = []
        for c in ax[k].collections:
            pts += [(float(a), float(b)) for a, b in np.ma.filled(c.get_offsets(), np.nan) if not np.isnan(b)]
        obs.check(near(sorted(pts), want, 1e-6), lambda: "diagnostics: residuals by %s drawn at %s, expected %s" % ("period" if k == 2 else "origin", sorted(pts), want))


def see_boot(case, obs, tri, res, fig, opt, arg):
    fs = facets(fig, obs, list(tri.index))
    if fs is None:
        return
    dv = development(res, tri)
    lastdev = float(tri.columns[-1])
    q = opt.get("q", .9)
    los, his = suffix((1 - q) / 2), suffix((1 + q) / 2)
    sims = res.sims_data
    for o, (act, fc, ult) in dv.items():
        ls = {l.get_label(): l for l in fs[o].get_lines() if xy(l)}
        got = {k: xy(l) for k, l in ls.items()}
        if not obs.check(set(got) == {"actual", "forecast", los, his}, lambda: "boot: lines %s, expected actual, forecast, %s and %s" % (list(got), los, his)):
            return
        if not see_facet_lines(obs, "boot", o, got, act, fc, ult_of(res, o), lastdev):
            return
        see_markers(obs, "boot", ls, opt)
        xs = [x for x, _ in got["forecast"]]
        ult_tick(obs, "boot", fs[o], xs[-1])
        so = sims[sims["origin"] == o]
        band = {}
        for lab, p in ((los, (1 - q) / 2), (his, (1 + q) / 2)):
            want = [fc[0]]
            for x in xs[1:]:
                d = x if x <= lastdev else lastdev
                v = np.sort(so[so["dev"] == d]["ultimate"].values.astype(float))
                want.append((x, quantile(v, p)))
            band[lab] = want
            obs.check(near(got[lab], want), lambda: "boot: origin %s %s line %s, simulated %s" % (o, lab, got[lab], want))
        polys = [c for c in fs[o].collections if len(c.get_paths())]
        verts = {(float(a), float(b)) for c in polys for p in c.get_paths() for a, b in p.vertices}
        want = sorted(set(band[los]) | set(band[his]))
        obs.check(polys and all(any(near([v], [w]) for w in want) for v in verts) and all(any(near([v], [w]) for v in verts) for w in want),
                  lambda: "boot: origin %s filled area %s, interval %s" % (o, sorted(verts), want))
        if "fill_color" in opt and polys:
            obs.check(color(polys[0].get_facecolor()[0][:3]) == color(opt["fill_color"]) and abs(polys[0].get_facecolor()[0][3] - opt["fill_alpha"]) < 1e-9, "boot: fill colour or transparency differs from the requested")


def ult_of(res, o):
    t = res.trisqrd
    return float(t.at[o, "ultimate"]) if "ultimate" in t.columns else float(t.at[o, t.columns[-1]])


def quantile(v, p):
    h = (len(v) - 1) * p
    k = int(np.floor(h))
    k2 = min(k + 1, len(v) - 1)
    return float(v[k] + (h - k) * (v[k2] - v[k]))


def see_hist(case, obs, tri, res, fig, opt, arg):
    names = list(tri.index) + ["total"]
    fs = facets(fig, obs, names)
    if fs is None:
        return
    rd = res.reserve_dist
    for o, ax in fs.items():
        v = np.sort(rd[rd["origin"] == o]["reserve"].values.astype(float))
        bars = [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches]
        bins = opt.get("bins", 20)
        if not obs.check(len(bars) == bins, lambda: "hist: %d bars for %s, expected %d" % (len(bars), o, bins)):
            return
        obs.check(sum(b[2] for b in bars) == len(v), lambda: "hist: bars of %s count %s simulations of %d" % (o, sum(b[2] for b in bars), len(v)))
        h, e = np.histogram(v, bins=bins)
        obs.check(near([[b[2] for b in bars]], [h.tolist()]) and near([[b[0] for b in bars]], [e[:-1].tolist()], 1e-6),
                  lambda: "hist: bars of %s are %s, simulated reserves %s" % (o, bars, v.tolist()))
        med = max(0.0, quantile(v, .5))
        vs = [float(l.get_xdata()[0]) for l in ax.get_lines() if vline(l)]
        obs.check(near([vs], [[med]]), lambda: "hist: median of %s drawn at %s, is %s" % (o, vs, med))
        hit = [t for t in texts(ax) if t.startswith("median")]
        obs.check(len(hit) == 1 and abs(float(hit[0].split("= ")[1].replace(",", "")) - med) <= 1, lambda: "hist: annotation %s, median %s" % (hit, med))
        if "color" in opt:
            obs.check(color(ax.patches[0].get_facecolor()) == color(opt["color"]), "hist: bars not in the requested colour")
