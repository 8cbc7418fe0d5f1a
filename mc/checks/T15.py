"""T15: bootstrap fit, residuals and scale follow the ODP model."""
import math
import trikit
import ref
import mk
import bootspace
import mackspace
from cmp import close, size, isnan, tri_diff

ALPHA = [0.6, 1.1, 1.8]


def BOUNDS(tier):
    return {"triangles": "every assignment of %s to the 3 link ratios of a 3-period triangle (perfect fits excluded), no or hardly any (0.001%%) development in the last period; two equal origins (12 triangles of 4 periods); every way to make the 3 origins of a 3-period triangle positive, negative or change sign; %s" % (
        bootspace.ALPHA3, mackspace.BOUNDS(ALPHA, 4)), "calls": "sims 1 and 2, both residual modes (every third triangle), two runs in a row"}


def cases(tier):
    for k, c in enumerate(bootspace.triangles(tier, ALPHA, 4)):
        yield dict(c, both=k % 3 == 0)
    for r1 in (1.5, 3.0, 1.25, 2.5):                         # two origins alike: every residual of the first two occurs twice
        for r3 in (3.0, 1.0, 2.5):
            if r1 != r3:
                yield {"starts": [64.0, 64.0, 128.0, 32.0], "ratios": [[r1, 1.5, 1.0], [r1, 1.5], [r3], []], "scheme": "one", "both": True}
    for neg in range(1, 3 ** 3):                             # origins with negative amounts, rows that change sign
        sg = [neg // 9 % 3, neg // 3 % 3, neg % 3]
        st = [a * (-1.0 if q == 1 else 1.0) for a, q in zip([128.0, 600.0, 96.0], sg)]
        yield {"starts": st, "ratios": [[-0.5 if sg[0] == 2 else 1.5, 1.25], [-0.25 if sg[1] == 2 else 2.0], []], "scheme": "year", "both": neg % 2 == 0}


def moments(xs):
    n = len(xs)
    mu = math.fsum(xs) / n
    m = [math.fsum((x - mu) ** p for x in xs) / n for p in (2, 3, 4)]
    return n, mu, m


def detail(xs):
    n, mu, (m2, m3, m4) = moments(xs)
    cnt = {x: xs.count(x) for x in xs}
    mode = min(x for x in xs if cnt[x] == max(cnt.values()))
    return {"size": n, "sum": math.fsum(xs), "sum_of_squares": math.fsum(x * x for x in xs), "minimum": min(xs), "maximum": max(xs), "mean": mu,
            "skew": m3 / m2 ** 1.5, "mode": mode, "cov": math.sqrt(m2) / mu if mu else math.inf, "kurtosis": m4 / m2 ** 2 - 3, "variance": m2 * n / (n - 1),
            "standard_deviation": math.sqrt(m2 * n / (n - 1)), "median": ref.median(xs)}


def run(case, obs):
    recs = mk.recs_of({k: v for k, v in case.items() if k != "both"})
    m = ref.cum_tri(recs)
    rows, cols, C = m
    w = bootspace.fit(m)
    sc = size(C)
    tri = trikit.totri(mk.tabular(recs))
    for par, sims in ((False, 1), (True, 2)) if case["both"] else ((False, 2),):
        r = tri.boot_cl(sims=sims, parametric=par, random_state=3)
        obs.state(m, par, sims)
        bad = lambda msg: obs.fail("boot_cl(sims=%d, parametric=%s): %s (amounts %s)" % (sims, par, msg, C))
        for nm, got, want in (("fitted_tri_cum", r.fitted_tri_cum, w["fit_cum"]), ("fitted_tri_incr", r.fitted_tri_incr, w["fit_incr"])):
            msg = tri_diff(got, (rows, cols, want), nm, sc * max(w["ldfs"]))
            obs.step()
            if msg:
                return bad(msg)
        for k, c in enumerate(cols):
            for i, o in enumerate(rows):
                obs.step()
                a, b, fi = r.unscaled_residuals.loc[o, c], w["us"][i][k], w["fit_incr"][i][k]
                tol = 0 if fi in (None, 0) else sc / math.sqrt(abs(fi)) * 10
                if not close(a, b, tol):
                    return bad("unscaled residual at (%s, %s) is %r, expected %r" % (o, c, a, b))
                a, b = r.adjusted_residuals.loc[o, c], w["adj"][i][k]
                if not close(a, b, tol):
                    return bad("adjusted residual at (%s, %s) is %r, expected %r" % (o, c, a, b))
        if r.unscaled_residuals.shape != (len(rows), len(cols)) or r.adjusted_residuals.shape != (len(rows), len(cols)):
            return bad("residual tables of shape %s and %s" % (r.unscaled_residuals.shape, r.adjusted_residuals.shape))
        if r.dof != w["dof"]:
            return bad("dof %s, expected %s" % (r.dof, w["dof"]))
        if not close(r.scale_param, w["scale"], 0.0, 1e-7):
            return bad("scale_param %r, expected %r" % (r.scale_param, w["scale"]))
        if not all(close(a, b) for a, b in zip(r.ldfs, w["ldfs"])) or len(r.ldfs) != len(cols):
            return bad("ldfs %s, expected %s" % (list(r.ldfs), w["ldfs"]))
        if par:
            if r.sampling_dist is not None:
                return bad("sampling_dist %s" % r.sampling_dist)
            continue
        tol = max([sc / math.sqrt(abs(v)) for q in w["fit_incr"] for v in q if v] or [0])
        got, want = sorted(float(v) for v in r.sampling_dist), sorted(w["sampling"])
        near = [v for v in want if abs(v) <= 1e-9 * tol]                # zero up to rounding: may be left out
        if near:
            got, want = [v for v in got if abs(v) > 1e-9 * tol], [v for v in want if abs(v) > 1e-9 * tol]
        if len(got) != len(want) or not all(close(a, b, tol * 10) for a, b in zip(got, want)):
            return bad("sampling_dist %s, expected %s" % (got, want))
        d = r.residuals_detail
        for col, src in (("unscaled", r.unscaled_residuals), ("adjusted", r.adjusted_residuals)):
            xs = [float(v) for q in src.to_numpy().tolist() for v in q if not isnan(v) and v != 0]
            e = detail(xs)
            n, mu, (m2, _, _) = moments(xs)
            if sorted(d.index) != sorted(e):
                return bad("residuals_detail rows %s" % list(d.index))
            for k, v in e.items():
                obs.step()
                if k == "cov" and abs(mu) < 1e-9 * math.sqrt(m2):
                    continue
                if not close(d.loc[k, col], v, 1e3 * max(abs(x) for x in xs) if k in ("sum", "mean") else 1.0, 1e-6):
                    return bad("residuals_detail %s %s is %r, expected %r of %s" % (col, k, d.loc[k, col], v, xs))
    obs.trace()
