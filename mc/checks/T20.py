"""T20: quantile requests are answered per quantile and labelled with it."""
import itertools
import math
import numpy as np
import trikit
import ref
import mk
import space
from cmp import close, isnan, labels

ALPHA = [0.5, 0.9, 0.0, 1.0, 0.025, 0.333]
BAD = [-0.01, 1.01, -1e-9, 1 + 1e-9, 2, 50, 95, -1, float("inf"), float("nan")]
METHODS = ["linear", "lower", "higher", "midpoint", "nearest"]
CONT = ["list", "tuple", "array", "reversed", "dup", "float32"]


def BOUNDS(tier):
    t = tier == "thorough"
    return {"single quantiles": "0, 0.005, ..., 1 (every half percent), every 1/1000 %s, k/7, k/3, 1e-5; as float, list, numpy scalar, 0-d array" % ("" if t else "that is a multiple of 9"),
            "lists": "every ordered selection (with repetition) of at most %d of %s as list, tuple, array; every subset; empty excluded" % (4 if t else 3, ALPHA),
            "rejected": "every one of %s alone and mixed before, between and after valid ones, followed by a valid request" % BAD,
            "results": "mack norm and lognorm (4 periods), bootstrap with 1, 2, 5, 10, 21 simulations (3 periods, and 4 with negative reserves) x 5 interpolations x lb in {None, 0, -10, 1e9}",
            "summary": "the same lists as q of mack_cl and boot_cl, one- and two-sided"}


def cases(tier):
    t = tier == "thorough"
    singles = [k / 200 for k in range(201)] + [k / 1000 for k in range(1, 1000, 1 if t else 9)] + [k / 7 for k in range(1, 7)] + [1 / 3, 2 / 3, 1e-5, 0.99999]
    for k in range(0, len(singles), 12):
        yield {"k": "single", "q": singles[k:k + 12]}
    for k in range(0, len(singles), 6 if t else 30):
        yield {"k": "summ1", "q": singles[k:k + 3]}
    for d in range(1, 5 if t else 4):
        for k, q in enumerate(itertools.product(ALPHA, repeat=d)):
            yield {"k": "list", "q": list(q), "cont": ["list", "tuple", "array"] if d < 4 else ["list"], "summ": t and d < 4 or k % 7 == 0}
    for s in range(1, 7):
        for q in itertools.combinations(ALPHA, s):
            yield {"k": "list", "q": list(q), "cont": CONT, "summ": 0}
    for b in BAD:
        yield {"k": "bad", "v": repr(b)}
    for sims in (1, 2, 5, 10, 21):
        for method in METHODS:
            for lb in (None, 0, 0.0, -10.0, 100.0, 1e9):
                yield {"k": "boot", "sims": sims, "method": method, "lb": lb}
                yield {"k": "boot", "sims": sims, "method": method, "lb": lb, "neg": 1}


_res = {}


def results():
    if not _res:
        t4 = trikit.totri(mk.tabular(mk.recs_of({"shape": [4, 4], "scheme": "year"})))
        t3 = trikit.totri(mk.tabular(mk.recs_of({"shape": [3, 3], "scheme": "year"})))
        n4 = trikit.totri(mk.tabular([(o, d, -.3 * v if d == 4 else v) for o, d, v in mk.recs_of({"shape": [4, 4], "scheme": "year"})]))
        _res.update(n4=n4, t4=t4, t3=t3, norm=t4.mack_cl(dist="norm"), lognorm=t4.mack_cl(alpha=0), boot=t3.boot_cl(sims=11, random_state=1))
    return _res


def number(p):
    s = "%.5f" % (100 * p)
    return s.rstrip("0").rstrip(".")


def ordinal(p):
    s = number(p)
    if "." in s or s in ("11", "12", "13"):
        return s + "th"
    return s + {"1": "st", "2": "nd", "3": "rd"}.get(s[-1], "th")


def wrap(q, cont):
    if cont == "tuple":
        return tuple(q)
    if cont == "array":
        return np.array(q)
    if cont == "reversed":
        return np.array(q)[::-1]
    if cont == "dup":
        return list(q) + list(q)[::-1]
    if cont == "float32":
        return np.array(q, dtype="float32")
    return list(q)


def expect(obs, res, r, q, got, what, method="linear", lb=None):
    """Compare one get_quantiles table with the quantiles of the result."""
    qs = sorted(set(float(x) for x in q))
    if list(got.columns) != [ordinal(p) for p in qs]:
        obs.fail("%s has columns %s, expected %s" % (what, list(got.columns), [ordinal(p) for p in qs]))
        return False
    if list(got.index) != list(r.summary.index):
        obs.fail("%s has rows %s" % (what, list(got.index)))
        return False
    for p, c in zip(qs, got.columns):
        for o in list(got.index)[1 if res != "boot" else 0:]:
            obs.step()
            a = got.loc[o, c]
            if res == "boot":
                xs = [float(v) for v, k in zip(r.reserve_dist["reserve"], r.reserve_dist["origin"]) if k == o]
                ok = [ref.percentile(xs, min(1.0, max(0.0, p + e)), method) for e in (0.0, 2e-9, -2e-9)]
                if lb is not None:
                    ok = [max(v, lb) for v in ok]
                if not any(close(a, v, 1e4) for v in ok):
                    obs.fail("%s: %s of %s is %r, expected %r" % (what, c, o, a, ok[0]))
                    return False
            else:
                mean, se = r.summary.loc[o, "reserve"], r.summary.loc[o, "std_error"]
                if res == "norm":
                    want = -math.inf if p == 0 else math.inf if p == 1 else mean + se * ref.norm_ppf(p)
                else:
                    s2 = math.log(1 + (se / mean) ** 2)
                    want = 0.0 if p == 0 else math.inf if p == 1 else math.exp(math.log(mean) - s2 / 2 + math.sqrt(s2) * ref.norm_ppf(p))
                if not close(a, want, 1e4):
                    obs.fail("%s: %s of %s is %r, expected %r" % (what, c, o, a, want))
                    return False
    return True


def summary(obs, res, q, two, cont):
    R = results()
    arg = wrap(q, cont)
    if res == "boot":
        r = R["t3"].boot_cl(sims=11, random_state=1, q=arg, two_sided=two)
    else:
        r = R["t4"].mack_cl(dist=res, alpha=0 if res == "lognorm" else 1, q=arg, two_sided=two)
    want = sorted({round(p, 9) for x in q for p in (((1 - x) / 2, (1 + x) / 2) if two else (x,))})
    heads = [number(p) + "%" for p in want]
    got = [c for c in r.summary.columns if c.endswith("%")]
    what = "%s summary for q=%s (%s), two_sided=%s" % (res, q, cont, two)
    if got != heads:
        obs.fail("%s has columns %s, expected %s" % (what, got, heads))
        return False
    g = results()[res].get_quantiles(want)
    for p, h, c in zip(want, heads, g.columns):
        for o in list(g.index)[1:]:
            obs.step()
            if not close(r.summary.loc[o, h], g.loc[o, c], 1e4):
                obs.fail("%s: %s of %s is %r but get_quantiles gives %r" % (what, h, o, r.summary.loc[o, h], g.loc[o, c]))
                return False
    return True


def run(case, obs):
    R = results()
    k = case["k"]
    if k in ("single", "summ1"):
        for q in case["q"]:
            obs.state(k, q)
            for res in ("norm", "lognorm", "boot"):
                if k == "summ1":
                    for two in (False, True):
                        if not summary(obs, res, [q], two, "list"):
                            return
                    continue
                for form, arg in (("float", q), ("list", [q]), ("numpy", np.float64(q)), ("0-d", np.array(q))) + ((("int", int(q)),) if q in (0, 1) else ()):
                    if not expect(obs, res, R[res], [q], R[res].get_quantiles(arg), "%s get_quantiles(%r as %s)" % (res, q, form)):
                        return
            if k == "single":
                # a scalar in the estimator calls
                r = R["t4"].mack_cl(dist="norm", q=q)
                if [c for c in r.summary.columns if c.endswith("%")] != [number(q) + "%"]:
                    return obs.fail("mack_cl(q=%r) has columns %s" % (q, list(r.summary.columns)))
    elif k == "list":
        q = case["q"]
        for cont in case["cont"]:
            arg = wrap(q, cont)
            vals = [float(v) for v in arg]
            obs.state(q, cont)
            for res in ("norm", "lognorm", "boot"):
                if not expect(obs, res, R[res], vals, R[res].get_quantiles(arg), "%s get_quantiles(%s as %s)" % (res, q, cont)):
                    return
            if [float(v) for v in arg] != vals:
                return obs.fail("get_quantiles changed its argument %s" % vals)
        if case["summ"]:
            for res in ("norm", "lognorm", "boot"):
                for two in (False, True):
                    if not summary(obs, res, q, two, ["list", "tuple", "array"][len(q) % 3]):
                        return
    elif k == "bad":
        v = eval(case["v"], {"inf": float("inf"), "nan": float("nan")})
        for arg in (v, [v], (v, 0.5), [0.5, v], np.array([0.1, v, 0.9]), [0.0, 1.0, v], np.array([v, v])):
            for what, call in (("mack get_quantiles", lambda: R["norm"].get_quantiles(arg)), ("boot get_quantiles", lambda: R["boot"].get_quantiles(arg)),
                               ("mack_cl", lambda: R["t4"].mack_cl(q=arg)), ("mack_cl two-sided", lambda: R["t4"].mack_cl(q=arg, two_sided=True)),
                               ("boot_cl", lambda: R["t3"].boot_cl(sims=2, random_state=1, q=arg)),
                               ("boot_cl two-sided", lambda: R["t3"].boot_cl(sims=2, random_state=1, q=arg, two_sided=True))):
                obs.state(what, repr(arg))
                obs.step()
                try:
                    call()
                except Exception:
                    continue
                return obs.fail("%s accepted q=%r" % (what, arg))
        for res in ("norm", "lognorm", "boot"):
            if not expect(obs, res, R[res], [0.5, 0.9], R[res].get_quantiles([0.5, 0.9]), "%s get_quantiles after rejected quantiles" % res):
                return
            if not summary(obs, res, [0.5, 0.9], True, "list"):
                return
    else:
        r = R["n4" if case.get("neg") else "t3"].boot_cl(sims=case["sims"], random_state=2)
        for q in ([0.1 * j for j in range(11)], [0.5], [0.005, 0.25, 0.75, 0.995], 0.333):
            ql = q if isinstance(q, list) else [q]
            obs.state(case["sims"], case["method"], case["lb"], str(q))
            g = r.get_quantiles(q, interpolation=case["method"], lb=case["lb"])
            if not expect(obs, "boot", r, ql, g, "boot (sims=%d) get_quantiles(%s, %s, lb=%s)" % (case["sims"], q, case["method"], case["lb"]), case["method"], case["lb"]):
                return
    obs.trace()
