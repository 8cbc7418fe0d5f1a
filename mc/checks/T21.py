"""T21: sample datasets load completely and consistently."""
import csv
import itertools
import os
import numpy as np
import pandas as pd
import trikit
import ref
import mk
from cmp import canon, close, isnan, tri_diff, size

TYPES = [None, "cum", "incr", "c", "i", "cumulative", "incremental"]
UNKNOWN = ["RAA", "", "raa ", "r", "lrdb2", "value", "ta83.csv", None, 0, 83]
BADTYPES = ["x", "", "tri", "latest", "_cum", " cum"]
OPS = ["raa", "raa:cum", "ta83", "glre:incr", "names", "unknown", "badtype", "edit"]


def BOUNDS(tier):
    t = tier == "thorough"
    return {"datasets": "every listed dataset x tri_type in %s" % TYPES, "rejected": "%s as name, %s as tri_type, each followed by a valid load" % (UNKNOWN, BADTYPES),
            "histories": "every sequence of at most %d of %s; edit overwrites everything handed out so far" % (4 if t else 3, OPS),
            "files": "every subset of the 5 records of a synthetic dataset%s x column order x extra columns x missing values x 3 tri_types" % ("" if t else " with at least 2 records")}


def cases(tier):
    t = tier == "thorough"
    for d in sorted(mk.FILES):
        for ty in TYPES:
            yield {"k": "load", "data": d, "type": ty}
    for u in UNKNOWN:
        yield {"k": "unknown", "name": u}
    for b in BADTYPES:
        yield {"k": "badtype", "type": b}
    yield {"k": "names"}
    for d in range(1, 5 if t else 4):
        for s in itertools.product(OPS, repeat=d):
            if "edit" in s or d < 3:
                yield {"k": "hist", "seq": list(s)}
    for bits in range(1, 32):
        if t or bin(bits).count("1") > 1:
            yield {"k": "file", "bits": bits}


def same_records(df, recs):
    if list(df.columns) != ["origin", "dev", "value"]:
        return "columns %s" % list(df.columns)
    if len(df) != len(recs):
        return "%d records, the file has %d" % (len(df), len(recs))
    for k, (o, d, v) in enumerate(zip(df["origin"], df["dev"], df["value"])):
        if (int(o), int(d)) != tuple(recs[k][:2]) or not close(v, recs[k][2]):
            return "record %d is %s, the file has %s" % (k, (o, d, v), recs[k])
    if list(df.index) != list(range(len(recs))):
        return "index %s" % list(df.index)[:10]
    return None


def verify(obs, got, recs, ty, what):
    obs.step()
    if ty is None:
        msg = same_records(got, recs)
    else:
        model = ref.cum_tri(recs) if ty[0] == "c" else ref.incr_tri(recs)
        want = "CumTriangle" if ty[0] == "c" else "IncrTriangle"
        msg = tri_diff(got, model, what, size(model[2]))
        if not msg and type(got).__name__ != want:
            msg = "%s returned a %s" % (what, type(got).__name__)
    if msg:
        obs.fail("%s: %s" % (what, msg))
    return not msg


def rejected(obs, f, what):
    obs.step()
    try:
        f()
    except Exception:
        return True
    obs.fail("%s was accepted" % what)
    return False


def run(case, obs):
    k = case["k"]
    obs.state(k, str(case))
    if k == "load":
        d, ty = case["data"], case["type"]
        for f in ((lambda: trikit.load(d, tri_type=ty)), (lambda: trikit.load(dataset=d, tri_type=ty))) + (((lambda: trikit.load(d)),) if ty is None else ()):
            if not verify(obs, f(), mk.dataset(d), ty, "load(%s, tri_type=%s)" % (d, ty)):
                return
    elif k == "unknown":
        for ty in (None, "cum"):
            if not rejected(obs, lambda: trikit.load(case["name"], tri_type=ty), "load(%r, tri_type=%r)" % (case["name"], ty)):
                return
            if not verify(obs, trikit.load("raa", tri_type=ty), mk.dataset("raa"), ty, "load(raa) after an unknown name"):
                return
    elif k == "badtype":
        for d in ("raa", "glre"):
            if not rejected(obs, lambda: trikit.load(d, tri_type=case["type"]), "load(%s, tri_type=%r)" % (d, case["type"])):
                return
            if not verify(obs, trikit.load(d, tri_type="cum"), mk.dataset(d), "cum", "load after an unknown tri_type"):
                return
    elif k == "names":
        for _ in range(2):
            names = trikit.get_datasets()
            if list(names) != sorted(mk.FILES):
                return obs.fail("get_datasets() is %s, expected %s" % (names, sorted(mk.FILES)))
            for d in names:
                if not verify(obs, trikit.load(d), mk.dataset(d), None, "load(%s)" % d):
                    return
            names.append("more")
            names[0] = "other"
    elif k == "hist":
        out = []
        for op in case["seq"]:
            if op == "edit":
                for x in out:
                    if isinstance(x, list):
                        x[:] = ["gone"]
                    else:
                        x.iloc[:, -1] = -1.0
                        x.iloc[0, :] = 7
                        x["new"] = 3
                        x.drop(x.index[1:4], inplace=True)
                continue
            if op == "names":
                out.append(trikit.get_datasets())
                if list(out[-1]) != sorted(mk.FILES):
                    return obs.fail("get_datasets() in %s is %s" % (case["seq"], out[-1]))
                continue
            if op == "unknown":
                if not rejected(obs, lambda: trikit.load("nothing"), "load('nothing')"):
                    return
                continue
            if op == "badtype":
                if not rejected(obs, lambda: trikit.load("raa", tri_type="x"), "load('raa', tri_type='x')"):
                    return
                continue
            d, _, ty = op.partition(":")
            out.append(trikit.load(d, tri_type=ty or None))
            if not verify(obs, out[-1], mk.dataset(d), ty or None, "load(%s) in %s" % (op, case["seq"])):
                return
    else:
        base = [(2001, 1, 100.25), (2001, 2, 50.0), (2000, 1, 80.0), (2000, 2, None), (2000, 3, -3.5)]
        recs = [r for x, r in enumerate(base) if case["bits"] >> x & 1]
        if all(r[2] is None for r in recs):
            return
        for cols in itertools.permutations(["origin", "dev", "value"]):
            for extra in (0, 1):
                path = os.path.join(os.environ.get("TRIKIT_MC_SCRATCH", "/tmp"), "ds-%d.csv" % os.getpid())
                with open(path, "w", newline="") as f:
                    w = csv.writer(f)
                    head = list(cols) + (["lob", "loss"] if extra else [])
                    w.writerow(head[::-1] if extra else head)
                    for x, r in enumerate(recs):
                        v = dict(zip(("origin", "dev", "value"), r), lob="a, b %d" % x, loss=x)
                        row = ["" if v[c] is None else v[c] for c in head]
                        w.writerow(row[::-1] if extra else row)
                for ty in (None, "cum", "incr"):
                    obs.state(case["bits"], cols, extra, ty)
                    got = trikit.load("mine", tri_type=ty, dataref={"mine": path, "lrdb": path})
                    if not verify(obs, got, recs, ty, "load of a file with records %s, columns %s" % (recs, head)):
                        os.unlink(path)
                        return
                os.unlink(path)
    obs.trace()
