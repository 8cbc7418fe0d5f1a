"""T16: bootstrap simulations apply resampling and process error exactly."""
import itertools
import math
import numpy as np
import trikit
import ref
import mk
import space
import bootspace
import mackspace
from script import Scripted, positions
from cmp import close, size, isnan

ALPHA = [0.6, 1.1, 1.8]
Z = [-1.5, 0.0, 2.0]


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "residual answers": "3 periods: every assignment of sampling distribution entries to the 6 observed cells (<= 4096) x 4 gamma answers; 4 periods: every assignment of 2 "
                            "entries to 10 cells x 4; 5 and 6 periods: every one or two cells deviating from a common entry",
        "normal answers": "parametric: every assignment of %s to 6 cells (3 periods), of 2 of them to 10 cells (4 periods)" % Z,
        "gamma answers": "mean, zero, three times the mean, variance; uniformly in every simulation, and every joint answer of the 3 (6) future cells of 3 (4) periods",
        "triangles": "answers enumerated on %d triangles (declining, growing, negative increments, settled last period, 8 label schemes, amounts of 1e-4 and 1e8); generator seeds 0-%d on: %s" % (
            len(tris(t)), 3, mackspace.BOUNDS(ALPHA, 9)),
        "seeds": "sims 1, 2, 3, 5 and 40",
    }


def tris(t):
    out = [{"shape": [3, 3], "scheme": s} for s in space.SCHEMES]
    for k, r in enumerate([[[0.6, 1.5], [1.1], []], [[3.0, 0.6], [2.0], []], [[2.0, 1.0], [1.5], []], [[1.1, 1.1], [3.0], []], [[0.6, 0.6], [0.7], []]]):
        out.append({"starts": [100.0, 160.0, 90.0], "ratios": r, "scheme": space.SCHEMES[k]})
    out += [{"shape": [4, 4], "scheme": "month"}, {"starts": [100.0, 160.0, 90.0, 250.0], "ratios": [[2.0, 0.8, 1.2], [1.6, 0.9], [2.3], []], "scheme": "gap"}]
    out += [{"shape": [3, 3], "scheme": "one", "scale": x} for x in ((1e-6, 1e-3, 1e6) if t else (1e-6, 1e6))]
    if t:
        out += [{"starts": [100.0, 160.0, 90.0, 250.0], "ratios": [[0.7, 0.8, 0.9], [1.6, 0.9], [0.5], []], "scheme": "zero"}, {"shape": [4, 4], "scheme": "hundred", "variant": 2}]
    return out


def cases(tier):
    t = tier == "thorough"
    for tr in tris(t):
        n = tr["shape"][0] if "shape" in tr else len(tr["ratios"])
        if n == 3:
            yield dict(tr, k="res", par=0)
            yield dict(tr, k="res", par=1)
            yield dict(tr, k="gam")
        elif n == 4:
            for a, b in ((0, -1), (1, 3)) + (((2, 4),) if t else ()):
                yield dict(tr, k="two", par=0, ab=[a, b])
            yield dict(tr, k="two", par=1, ab=[0, 2])
            yield dict(tr, k="gam")
    for n, pairs in ((5, 1), (6, 1), (7, 0)):
        for par in (0, 1):
            for base in (0, 1, 2) if t else (0,):
                yield {"shape": [n, n], "scheme": "year", "k": "dev", "pairs": pairs, "par": par, "base": base}
    for k, c in enumerate(bootspace.triangles(tier, ALPHA, 9)):
        yield dict(c, k="seed", par=k % 2, sims=[1, 2, 3, 5][k % 4], seed=k % 4)
    for n in (3, 4, 5, 6):
        for par in (0, 1):
            yield {"shape": [n, n], "scheme": "one", "k": "seed", "par": par, "sims": 40, "seed": 11, "spread": 1}


def plan(case, n, nopt):
    """(number of assignments, pick(assignment, i, k))"""
    acts = [(i, k) for i in range(n) for k in range(n - i)]
    pos = {c: x for x, c in enumerate(acts)}
    if case["k"] == "res":
        combos = list(itertools.product(range(nopt), repeat=len(acts)))
        return len(combos), lambda s, i, k: combos[s % len(combos)][pos[(i, k)]]
    if case["k"] == "two":
        a, b = [x % nopt for x in case["ab"]]
        return 2 ** len(acts), lambda s, i, k: b if (s >> pos[(i, k)]) & 1 else a
    if case["k"] == "dev":
        sets = [()] + [(c,) for c in acts] + (list(itertools.combinations(acts, 2)) if case["pairs"] else [])
        base = case["base"] % nopt
        return len(sets), lambda s, i, k: (base + 1 + (i + k) % (nopt - 1)) % nopt if (i, k) in sets[s % len(sets)] else base
    raise KeyError(case["k"])


def run(case, obs):
    recs = mk.recs_of(case)
    m = ref.cum_tri(recs)
    rows, cols, C = m
    n = len(cols)
    w = bootspace.fit(m)
    samp = w["sampling"]
    sd = ref.std1(samp)
    tri = trikit.totri(mk.tabular(recs))
    par = bool(case.get("par"))
    if case["k"] == "seed":
        r = tri.boot_cl(sims=case["sims"], random_state=case["seed"], parametric=par)
        S = verify(obs, m, w, r, case["sims"], None if par else samp, None)
        if S is not None and case.get("spread"):
            seen = {c: {round(s[c], 9) for s in S} for c in S[0]}
            flat = {v for s in S for v in s.values()}
            if min(len(v) for v in seen.values()) < 2:
                return obs.fail("40 simulations (parametric=%s) all use the same residual in some cell: %s" % (par, seen))
            if not par:
                hit = [x for x in samp if not any(close(x, v, size(C)) for v in flat)]
                if hit and n < 5:
                    return obs.fail("residuals %s are never drawn in 40 simulations of %d cells (sampling distribution %s)" % (hit, len(seen), samp))
        return obs.trace(case["sims"])
    if case["k"] == "gam":
        fut = [(i, k) for i in range(n) for k in range(n - i, n)]
        combos = list(itertools.product(range(4), repeat=len(fut)))
        if n == 4:
            combos = [c for c in combos]
        assign = [(s * 5 + 1) % 7 for s in range(len(combos))]
        pick = lambda s, i, k: (i + 2 * k + assign[s % len(assign)])
        sims = len(combos)
        fpos = {c: x for x, c in enumerate(fut)}

        def modes(pos, total):
            if total == sims * n * n:
                s, c = divmod(pos, n * n)
                i, k = divmod(c, n)
                return combos[s][fpos[(i, k)]] if i + k >= n else 0
            return combos[(pos // len(fut)) % sims][pos % len(fut)]
        rs = Scripted(positions(n, sims, pick), Z, modes)
    else:
        na, pick0 = plan(case, n, len(Z) if par else len(samp))
        G = 4 if case["k"] != "dev" else 2
        sims = na * G
        pick = lambda s, i, k: pick0(s // G, i, k)
        modes = lambda pos, total: [0, 3, 1, 2][(pos * sims // total) % G]
        rs = Scripted(positions(n, sims, pick), Z, modes)
    r = tri.boot_cl(sims=sims, random_state=rs, parametric=par)
    if par:
        allowed = [z * sd for z in Z]
    else:
        allowed = samp
    S = verify(obs, m, w, r, sims, allowed, True)
    if S is not None:
        for s in S:
            obs.state(rows, cols, C, par, tuple(round(v, 9) for v in s.values()))
        obs.trace(sims)


def verify(obs, m, w, r, sims, allowed, scripted):
    """Recomputes every simulation from its residuals; returns the residuals by cell."""
    rows, cols, C = m
    n = len(cols)
    sc = size(C)
    phi = w["scale"]
    bad = lambda msg: obs.fail("simulation of triangle %s: %s" % (C, msg))
    d = r.sims_data
    if len(d) != sims * n * n:
        return bad("%d records in sims_data for %d simulations of %d cells" % (len(d), sims, n * n))
    rec = {}
    for t in zip(d["sim"], d["origin"], d["dev"], d["rectype"], d["resid"], d["samp_incr"], d["samp_cum"], d["ldf"], d["final_incr"], d["ultimate"], d["latest"], d["reserve"]):
        rec[(int(t[0]), int(t[1]), int(t[2]))] = t[3:]
    if len(rec) != sims * n * n:
        return bad("duplicate records in sims_data")
    rd = {}
    q = r.reserve_dist
    for s, o, u, l, v in zip(q["sim"], q["origin"], q["ultimate"], q["latest"], q["reserve"]):
        rd[(int(s), o)] = (u, l, v)
    out = []
    tolr = max([sc / math.sqrt(abs(v)) for x in w["fit_incr"] for v in x if v] or [0])
    for s in range(sims):
        resid, S = {}, [[None] * n for _ in range(n)]
        inc = [[None] * n for _ in range(n)]
        for i, o in enumerate(rows):
            cum = 0.0
            for k in range(n - i):
                obs.step()
                rectype, e, si, su, ldf, fin, ult, lat, res = rec[(s, o, cols[k])]
                if rectype != "actual":
                    return bad("cell (%s, %s) is %s" % (o, cols[k], rectype))
                if isnan(e):
                    return bad("simulation %d has no residual at (%s, %s)" % (s, o, cols[k]))
                if allowed is not None and not any(close(e, a, 10 * tolr) for a in allowed):
                    return bad("simulation %d uses residual %r at (%s, %s), which is not one of %s" % (s, e, o, cols[k], allowed))
                resid[(i, k)] = e
                fi = w["fit_incr"][i][k]
                inc[i][k] = fi + e * math.sqrt(abs(fi))
                cum += inc[i][k]
                S[i][k] = cum
                for nm, a, b in (("samp_incr", si, inc[i][k]), ("samp_cum", su, cum), ("final_incr", fin, inc[i][k]), ("ultimate", ult, cum)):
                    if not close(a, b, 10 * sc):
                        return bad("%s at (%s, %s) in simulation %d is %r, expected %r with residuals %s" % (nm, o, cols[k], s, a, b, resid))
        out.append(resid)
        f = []
        for k in range(n - 1):
            den = math.fsum(S[i][k] for i in range(n - 1 - k))
            f.append(None if abs(den) < 1e-4 * sc else math.fsum(S[i][k + 1] for i in range(n - 1 - k)) / den)
        if None in f:
            continue
        big = 10 * sc * max(1.0, max(abs(x) for x in f)) ** 2 * 10
        for k in range(n - 1):
            for o in rows:
                if not close(rec[(s, o, cols[k])][4], f[k], 1e4):
                    return bad("factor at %s in simulation %d is %r, expected %r" % (cols[k], s, rec[(s, o, cols[k])][4], f[k]))
        tot = 0.0
        for i, o in enumerate(rows):
            cum = fin_cum = S[i][n - 1 - i]
            for k in range(n - i, n):
                obs.step()
                rectype, e, si, su, ldf, fin, ult, lat, res = rec[(s, o, cols[k])]
                if rectype != "forecast":
                    return bad("cell (%s, %s) is %s" % (o, cols[k], rectype))
                nxt = cum * f[k - 1]
                x = nxt - cum
                cum = nxt
                if not (close(su, cum, big) and close(si, x, big)):
                    return bad("forecast at (%s, %s) in simulation %d is %r (increment %r), expected %r (%r)" % (o, cols[k], s, su, si, cum, x))
                if scripted:
                    sg = 1.0 if x > 0 else -1.0
                    ok = [sg * g for g in (abs(x), 0.0, 3 * abs(x), abs(x) * phi)]
                    if abs(x) > 1e-6 * sc and not any(close(fin, a, big * max(1.0, phi)) for a in ok):
                        return bad("future increment at (%s, %s) in simulation %d is %r; a gamma with mean %r and variance %r answering its mean, zero, three "
                                   "times its mean or its variance gives one of %s" % (o, cols[k], s, fin, abs(x), abs(x) * phi, ok))
                elif abs(x) > 1e-6 * sc and fin * x < 0:
                    return bad("future increment at (%s, %s) in simulation %d is %r but its forecast is %r" % (o, cols[k], s, fin, x))
                fin_cum += fin
                if not close(ult, fin_cum, big):
                    return bad("simulated amount at (%s, %s) in simulation %d is %r, expected %r" % (o, cols[k], s, ult, fin_cum))
            u, l, v = rd[(s, o)]
            if not (close(u, fin_cum, big) and close(l, S[i][n - 1 - i], big) and close(v, fin_cum - S[i][n - 1 - i], big)):
                return bad("reserve_dist of %s in simulation %d is ultimate %r, latest %r, reserve %r; expected %r, %r, %r" % (
                    o, s, u, l, v, fin_cum, S[i][n - 1 - i], fin_cum - S[i][n - 1 - i]))
            tot += v
        if not close(rd[(s, "total")][2], tot, big):
            return bad("total reserve in simulation %d is %r, expected %r" % (s, rd[(s, "total")][2], tot))
    return out
