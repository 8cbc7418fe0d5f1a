"""T07: excluded link ratios have no influence; re-including restores."""
import itertools
import trikit
from trikit.estimators.base import BaseChainLadder
from trikit.estimators.mack import MackChainLadder
import ref
import mk
import space
from cmp import close, isnan, labels


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "exclusion sets": "all subsets of the link ratios of 3- and 4-period run-off triangles and a 3x4 rectangle%s; subsets of at most %d (and all but at "
                          "most 1) of 5- and 6-period ones" % (" and 5-period ones" if t else "", 2),
        "transitions": "from every such set, every single toggle and its reversal",
        "sequences": "every sequence of at most %d setter/.at/.loc assignments on a 3-period triangle, averages read in between" % (3 if t else 2),
        "exchanges": "every ordered pair of exclusion sets of one or two ratios reached from another without a read in between, with at most %d more exclusions" % (2 if t else 1),
        "jumps": "every ordered pair of exclusion sets of equal size (%s), read one right after the other on one triangle" % (
            "1 to 5 of 4 periods, 2 of 5" if t else "2 or 3 of 4 periods, 2 of a full 3x3"),
        "observed": "the whole a2a_avgs table, base_cl factors for every selection (one per state in turn), Mack factors for alpha 0, 1, 2 (all in the starting sets, in "
                    "turn after toggles) on new and on reused estimators",
        "values": "generic, tied, below-one ratios; 8 label schemes; raa",
    }


TRIS = {
    "g3": {"shape": [3, 3], "scheme": "year"}, "g4": {"shape": [4, 4], "scheme": "month"},
    "g5": {"shape": [5, 5], "scheme": "gap"}, "r34": {"shape": [3, 4], "scheme": "zero"},
    "f33": {"shape": [3, 3], "kind": "full", "scheme": "wide"},
    "tie4": {"starts": [100.0, 160.0, 90.0, 250.0], "ratios": [[2.0, 1.5, 1.25], [2.0, 1.5], [2.0], []], "scheme": "one"},
    "low4": {"starts": [100.0, 160.0, 90.0, 250.0], "ratios": [[0.5, 1.0, 0.75], [3.0, 0.5], [1.0], []], "scheme": "hundred"},
    "g6": {"shape": [6, 6], "scheme": "year", "variant": 1},
}


def subsets(xs, sizes):
    for k in sizes:
        yield from itertools.combinations(xs, k)


def nratios(spec):
    return len(ref.a2a(ref.cum_tri(mk.recs_of(spec))))


def cases(tier):
    t = tier == "thorough"
    for name in ("g3", "g4", "f33", "r34", "tie4", "low4") + (("g5",) if t else ()):
        k = nratios(TRIS[name])
        for s in subsets(range(k), range(k + 1)):
            if not t and name in ("tie4", "low4", "r34") and len(s) not in (0, 1, 2, k - 1, k):
                continue
            yield {"k": "set", "tri": name, "excl": list(s), "toggle": t or name in ("g3", "f33") or (name == "g4" and len(s) < 3)}
    for name in ("g6",) if t else ("g5", "g6"):
        k = nratios(TRIS[name])
        for s in subsets(range(k), (0, 1, 2) if t or name == "g5" else (1,)):
            yield {"k": "set", "tri": name, "excl": list(s), "toggle": 0}
        for s in subsets(range(k), (1,)):
            yield {"k": "set", "tri": name, "excl": [x for x in range(k) if x not in s], "toggle": 0}
    acts = [[r, v, how] for r in range(3) for v in (0, 1) for how in ("setter", "at", "loc")]
    for d in range(1, 3):
        for seq in itertools.product(acts, repeat=d):
            yield {"k": "seq", "scheme": "one", "seq": list(seq)}
    acts = [[r, v, how] for r in range(3) for v in (0, 1) for how in ("setter", "at")]
    if t:
        for seq in itertools.product(acts, repeat=3):
            yield {"k": "seq", "scheme": "year", "seq": list(seq)}
    for scheme in space.SCHEMES:
        for r in range(6):
            yield {"k": "set", "tri": {"shape": [4, 4], "scheme": scheme}, "excl": [r], "toggle": 1}
    for name in ("g3", "g4", "f33", "g5") if t else ("g3", "g4"):
        k = nratios(TRIS[name])
        for s in subsets(range(k), (0, 1, 2) if t else (0, 1)):
            yield {"k": "swap", "tri": name, "excl": list(s)}
    for name, size in [("g4", 2), ("g4", 3), ("f33", 2)] + ([("g4", 1), ("g4", 4), ("g4", 5), ("g5", 2), ("f33", 3), ("r34", 2)] if t else []):
        for s in subsets(range(nratios(TRIS[name])), (size,)):
            yield {"k": "jump", "tri": name, "excl": list(s)}
    for r in range(0, 45, 1 if t else 5):
        yield {"k": "set", "tri": {"data": "raa"}, "excl": [r, (r * 7 + 3) % 45], "toggle": 0}


def assign(tri, o, d, v, how):
    if how == "setter":
        tri.a2aind = (o, d, v)
    elif how == "at":
        tri.a2aind.at[o, d] = v
    else:
        tri.a2aind.loc[o, d] = v


class Model:
    def __init__(self, recs, obs):
        self.m = ref.cum_tri(recs)
        self.tri = trikit.totri(mk.tabular(recs))
        self.obs = obs
        self.excl = set()
        self.keys = sorted(ref.a2a(self.m))
        rows, cols, x = self.m
        n = len(rows)
        self.runoff = n == len(cols) and all((x[i][j] is not None) == (i + j < n) for i in range(n) for j in range(n))
        self.mack = MackChainLadder(self.tri)
        self.base = BaseChainLadder(self.tri)
        self.sel = 0
        self.every = False

    def set(self, key, v, how):
        assign(self.tri, key[0], key[1], v, how)
        (self.excl.discard if v else self.excl.add)(key)
        self.obs.step()

    def verify(self, how):
        obs, tri, (rows, cols, x) = self.obs, self.tri, self.m
        excl = frozenset(self.excl)
        obs.state(self.m, tuple(sorted(excl)))
        table = ref.average_table(self.m, excl)
        got = tri.a2a_avgs()
        what = "%s, excluded %s of %s" % (how, sorted(excl), x)
        for (lab, c), want in table.items():
            obs.step()
            if lab not in got.index or not close(got.at[lab, c], want):
                obs.fail("%s: %s of period %s is %r, expected %r" % (what, lab, c, got.at[lab, c] if lab in got.index else None, want))
                return
        ind = tri.a2aind
        for o, c in self.keys:
            obs.check(ind.at[o, c] == (0 if (o, c) in excl else 1), "%s: a2aind at %s is %s" % (what, (o, c), ind.at[o, c]))
        # estimates use the same averages
        labs = sorted({k[0] for k in table})
        for lab, est in (("all-weighted", self.base), (labs[self.sel % len(labs)], None)):
            ldfs = (est(sel=lab, tail=1.1) if est else tri.base_cl(sel=lab, tail=1.1)).ldfs
            obs.step()
            want = [table[(lab, c)] for c in cols[:-1]] + [1.1]
            if not all(close(a, b) for a, b in zip(list(ldfs), want)) or labels(ldfs.index) != labels(cols):
                obs.fail("%s: base_cl(%s).ldfs %s, expected %s" % (what, lab, list(ldfs), want))
        self.sel += 1
        if self.runoff and len(rows) >= 4:
            for alpha in (0, 1, 2) if self.every else (self.sel % 3,):
                want = []
                for j in range(len(cols) - 1):
                    use = [i for i in range(len(rows) - 1 - j) if (rows[i], cols[j]) not in excl]
                    w = [x[i][j] ** alpha for i in use]
                    want.append(sum(a * x[i][j + 1] / x[i][j] for a, i in zip(w, use)) / sum(w) if use else None)
                if None in want:
                    continue
                r = self.mack(alpha=alpha) if alpha == 1 or self.sel % 2 else tri.mack_cl(alpha=alpha)
                obs.step()
                if not all(close(a, b) for a, b in zip(list(r.ldfs), want + [1.0])):
                    obs.fail("%s: mack_cl(alpha=%s).ldfs %s, expected %s" % (what, alpha, list(r.ldfs), want))
                cl = ref.chain_ladder(self.m, want + [1.0])
                obs.check(all(close(a, b) for a, b in zip(r.summary["ultimate"].iloc[:-1], cl["ultimate"])),
                          "%s: mack_cl(alpha=%s) ultimates %s, expected %s" % (what, alpha, list(r.summary["ultimate"]), cl["ultimate"]))


def run(case, obs):
    if case["k"] == "seq":
        w = Model(mk.recs_of({"shape": [3, 3], "scheme": case["scheme"]}), obs)
        for n, (r, v, how) in enumerate(case["seq"]):
            w.set(w.keys[r], v, how)
            w.verify("after %s" % case["seq"][:n + 1])
    elif case["k"] == "swap":
        w = Model(mk.recs_of(TRIS[case["tri"]]), obs)
        for r in case["excl"]:
            w.set(w.keys[r], 0, "setter")
        w.verify("set")
        rest = [k for k in w.keys if k not in w.excl]
        for a, b in itertools.permutations(rest, 2):
            w.set(a, 0, "setter")
            w.verify("excluded %s" % (a,))
            w.set(a, 1, "setter")
            w.set(b, 0, "at")
            w.verify("%s exchanged for %s" % (a, b))
            w.set(b, 1, "loc")
    elif case["k"] == "jump":
        w = Model(mk.recs_of(TRIS[case["tri"]]), obs)
        here = {w.keys[r] for r in case["excl"]}
        for r in here:
            w.set(r, 0, "setter")
        w.verify("set")
        for there in subsets(w.keys, (len(here),)):
            if set(there) == here:
                continue
            for r in sorted(here - set(there)):
                w.set(r, 1, "at")
            for r in sorted(set(there) - here):
                w.set(r, 0, "setter")
            w.verify("from %s to %s" % (sorted(here), there))
            for r in sorted(set(there) - here):
                w.set(r, 1, "loc")
            for r in sorted(here - set(there)):
                w.set(r, 0, "setter")
    else:
        spec = TRIS[case["tri"]] if isinstance(case["tri"], str) else case["tri"]
        w = Model(mk.recs_of(spec), obs)
        w.every = not case["toggle"] or len(case["excl"]) < 2
        if len(case["excl"]) < 2:
            w.verify("untouched")
        for n, r in enumerate(case["excl"]):
            w.set(w.keys[r], 0, ("setter", "at", "loc")[n % 3])
        if case["excl"]:
            w.verify("set")
        w.every = False
        if case["toggle"]:
            for key in w.keys:
                was = 0 if key in w.excl else 1
                w.set(key, 1 - was, "setter")
                w.verify("toggled %s" % (key,))
                w.set(key, was, "setter")
            w.verify("toggled back")
        for key in sorted(w.excl, reverse=True):
            w.set(key, 1, "at")
        w.verify("all included again")
    obs.trace()
