"""T12: Mack standard errors follow the recursive mean squared error."""
import itertools
import trikit
import ref
import mk
import mackspace
from cmp import close, size, isnan, labels

ALPHA = [0.6, 1.0, 1.8]


def BOUNDS(tier):
    return {"triangles": mackspace.BOUNDS(ALPHA, 2), "calls": "alpha 0, 1, 2; on a new triangle and after the other alphas", "exclusions": "every set of excluded link ratios leaving at least two per period (one in the last) of run-off "
            "triangles of 4 and 5 (thorough: and 6) periods, set on a triangle already estimated, and included again"}


def cases(tier):
    t = tier == "thorough"
    tris = [{"shape": [4, 4], "scheme": "year"}, {"shape": [5, 5], "scheme": "gap"}] + \
        ([{"shape": [5, 5], "scheme": "month", "variant": 3}, {"shape": [6, 6], "scheme": "zero", "variant": 1}] if t else [])
    for c in tris:
        n = c["shape"][0]
        per = [[s for k in range(n - j - 2) for s in itertools.combinations(range(n - j - 1), k)] if j < n - 2 else [()] for j in range(n - 1)]
        for k, sets in enumerate(itertools.product(*per)):
            yield dict(c, order=[k % 3, (k + 1) % 3], excl=[[i, j] for j, s in enumerate(sets) for i in s])
    for k, c in enumerate(mackspace.triangles(tier, ALPHA, 2)):
        yield dict(c, order=[[0, 1, 2], [2, 1, 0], [1, 2, 0], [1, 0, 2]][k % 4])


def run(case, obs):
    recs = mk.recs_of({k: v for k, v in case.items() if k not in ("order", "excl")})
    m = ref.cum_tri(recs)
    rows, cols, C = m
    n = len(cols)
    tri = trikit.totri(mk.tabular(recs))
    if "excl" in case:
        excl = frozenset((rows[i], cols[j]) for i, j in case["excl"])
        if len(excl) % 2:
            tri.mack_cl()
        for o, d in sorted(excl):
            tri.a2aind = (o, d, 0)
        if compare(case, obs, m, tri, excl) is not True:
            return
        for o, d in sorted(excl):
            tri.a2aind = (o, d, 1)
    if compare(case, obs, m, tri, frozenset()) is True:
        obs.trace()


def compare(case, obs, m, tri, excl):
    rows, cols, C = m
    n = len(cols)
    for alpha in case["order"]:
        r = tri.mack_cl(alpha=alpha)
        w = ref.mack(m, alpha, excl)
        obs.state(m, alpha, sorted(excl))
        s = r.summary
        bad = lambda what, got, want: obs.fail("%s of mack_cl(alpha=%d) is %r, expected %r (amounts %s, excluded %s)" % (what, alpha, got, want, C, sorted(excl)))
        for nm, got, want, idx in (("devpvar", r.devpvar, w["devpvar"], cols[:-1]), ("ldfvar", r.ldfvar, w["ldfvar"], cols[:-1]),
                                   ("process_error", r.process_error, w["process"], rows), ("parameter_error", r.parameter_error, w["parameter"], rows)):
            if labels(got.index) != labels(idx):
                return bad(nm + " labels", list(got.index), idx)
            for k, a, b in zip(idx, got, want):
                obs.step()
                if not close(a, b, 0.0, 1e-7):
                    return bad("%s at %s" % (nm, k), a, b)
        for k, o in enumerate(rows):
            obs.step(2)
            if not close(s.loc[o, "std_error"], w["std_error"][k]):
                return bad("std_error of %s" % o, s.loc[o, "std_error"], w["std_error"][k])
            if k == 0:
                if not isnan(s.loc[o, "cv"]) and s.loc[o, "cv"] != 0:
                    return bad("cv of %s" % o, s.loc[o, "cv"], 0)
            elif abs(w["reserve"][k]) > 1e-6 * size(C) and not close(s.loc[o, "cv"], w["std_error"][k] / w["reserve"][k], 0.0, 1e-6):
                return bad("cv of %s" % o, s.loc[o, "cv"], w["std_error"][k] / w["reserve"][k])
        tot = sum(w["reserve"])
        if not close(s.loc["total", "std_error"], w["total_se"]):
            return bad("total std_error", s.loc["total", "std_error"], w["total_se"])
        if abs(tot) > 1e-6 * size(C) and not close(s.loc["total", "cv"], w["total_se"] / tot, 0.0, 1e-6):
            return bad("total cv", s.loc["total", "cv"], w["total_se"] / tot)
        for a in ("std_error", "cv"):
            if hasattr(r, a) and not all(close(x, y) for x, y in zip(getattr(r, a), s[a])):
                return bad("attribute " + a, list(getattr(r, a)), list(s[a]))
    return True
