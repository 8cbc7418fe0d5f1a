"""T22: CAS database queries select exactly the matching records."""
import csv
import itertools
import os
import numpy as np
import pandas as pd
import trikit
import ref
from cmp import close, tri_diff, size

COMBOS = [(l, c, n) for l in ("comauto", "wkcomp") for c in (1767, 86) for n in ("X Ins Grp", "Y, Mut")]
LOBS = [None, "comauto", "wkcomp", "medmal"]
CODES = [None, 1767, 86, 5]
GRN = [None, "X Ins Grp", "Y, Mut", "Q"]
HEAD = ["loss_key", "grcode", "grname", "origin", "dev", "incrd_loss", "paid_loss", "earned_prem", "train_ind"]


def BOUNDS(tier):
    t = tier == "thorough"
    return {"databases": "every non-empty set of the 8 (line, code, name) combinations%s, 4 records each (3 for training; all 16 training indicators on 2 (thorough: 4) of the sets), records in 3 file orders, column orders" % ("" if t else " (quick: one in 3)"),
            "queries": "every combination of lob, grcode, grname in None, the two present and one absent value x loss type x train_only x tri_type (loss type and train_only in rotation in the quick tier); "
                       "defaults; invalid loss and triangle types"}


def cases(tier):
    t = tier == "thorough"
    for bits in range(1, 256):
        if t or bits % 3 == 0 or bits in (1, 255):
            yield {"bits": bits, "order": bits % 3, "all": int(t or bits in (1, 3, 255)), "cols": bits % 4}
    for train in range(16):
        for bits in (1, 3, 0x55, 255) if t else (3, 255):
            yield {"bits": bits, "order": train % 3, "all": 0, "cols": train % 4, "train": train}


def database(case):
    recs = []
    for x, (l, c, n) in enumerate(COMBOS):
        if case["bits"] >> x & 1:
            train = case.get("train", 7)
            for k, (o, d) in enumerate([(1988, 1), (1988, 2), (1989, 1), (1989, 2)]):
                tr = (train if x % 2 == 0 else 15 - train if "train" in case else 7) >> k & 1
                recs.append((l, c, n, o, d, 1000 * (x + 1) + 100 * k + 0.5, 10 * (x + 1) + k + 0.25, 5 + x, tr))
    if case["order"] == 1:
        recs = recs[::-1]
    elif case["order"] == 2:
        recs = recs[1::2] + recs[0::2]
    return recs


def write(recs, path, perm):
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        cols = HEAD[perm:] + HEAD[:perm]
        w.writerow(cols)
        for r in recs:
            v = dict(zip(HEAD, r))
            w.writerow([v[c] for c in cols])


def select(recs, lob, grcode, grname, loss, train):
    """Matching (origin, dev, value), or None when a filter value is absent."""
    for pos, want in ((0, lob), (1, grcode), (2, grname)):
        if want is not None:
            recs = [r for r in recs if r[pos] == want]
            if not recs:
                return None
    if train:
        recs = [r for r in recs if r[8] == 1]
    return [(r[3], r[4], r[5] if loss[0] == "i" else r[6]) for r in recs]


def query(obs, path, recs, kw, explicit):
    obs.step()
    full = dict(lob="comauto", grcode=1767, grname=None, loss_type="incurred", train_only=True, tri_type=None)
    full.update(kw)
    want = select(recs, full["lob"], full["grcode"], full["grname"], full["loss_type"], full["train_only"])
    what = "load_lrdb(%s) on %s" % (kw, [r[:5] + r[8:] for r in recs])
    try:
        got = trikit.load_lrdb(dataref={"lrdb": path}, **kw)
    except Exception as e:
        if want is None or (not want and full["tri_type"]):
            return True
        obs.fail("%s raised %s: %s" % (what, type(e).__name__, e))
        return False
    if want is None:
        obs.fail("%s was accepted although a filter value is absent: %s" % (what, got))
        return False
    if full["tri_type"] and not want:
        return True                      # a triangle of no records
    if full["tri_type"]:
        model = ref.cum_tri(want) if full["tri_type"][0] == "c" else ref.incr_tri(want)
        msg = tri_diff(got, model, "triangle", size(model[2]))
        if not msg and type(got).__name__ != ("CumTriangle" if full["tri_type"][0] == "c" else "IncrTriangle"):
            msg = "a %s" % type(got).__name__
    else:
        rows = [(int(o), int(d), float(v)) for o, d, v in zip(got["origin"], got["dev"], got["value"])]
        msg = None
        if list(got.columns) != ["origin", "dev", "value"]:
            msg = "columns %s" % list(got.columns)
        elif rows != want:
            msg = "records %s, expected %s" % (rows, want)
        elif list(got.index) != list(range(len(rows))):
            msg = "index %s" % list(got.index)
    if msg:
        obs.fail("%s: %s" % (what, msg))
        return False
    return True


def run(case, obs):
    recs = database(case)
    path = os.path.join(os.environ.get("TRIKIT_MC_SCRATCH", "/tmp"), "lrdb-%d.csv" % os.getpid())
    write(recs, path, [0, 3, 5, 8][case["cols"]])
    try:
        lobs = trikit.get_lrdb_lobs(lrdb_path=path)
        obs.step(2)
        if list(lobs) != sorted({r[0] for r in recs}):
            return obs.fail("get_lrdb_lobs() is %s, expected %s" % (lobs, sorted({r[0] for r in recs})))
        specs = trikit.get_lrdb_specs(lrdb_path=path)
        rows = [(a, int(b), c) for a, b, c in zip(specs["loss_key"], specs["grcode"], specs["grname"])]
        if list(specs.columns) != ["loss_key", "grcode", "grname"] or len(rows) != len(set(rows)) or set(rows) != {r[:3] for r in recs} \
                or [r[:2] for r in rows] != sorted(r[:2] for r in rows):
            return obs.fail("get_lrdb_specs() is %s, the database has %s" % (rows, sorted({r[:3] for r in recs})))
        count = 0
        for lob, code, name in itertools.product(LOBS, CODES, GRN):
            combos = list(itertools.product(("incurred", "paid"), (True, False)))
            if not case["all"]:
                combos = [combos[count % 4]]
            for loss, train in combos:
                tt = [None, "cum", "incr"] if case["all"] else [None] + ["cum", "incr"][count // 4 % 2:][:1]
                if len(combos) == 1 and count % 3 and lob is not None:
                    tt = [None]
                for ty in tt:
                    obs.state(case["bits"], case["order"], lob, code, name, loss, train, ty)
                    if not query(obs, path, recs, dict(lob=lob, grcode=code, grname=name, loss_type=loss, train_only=train, tri_type=ty), True):
                        return
            count += 1
        for kw in ({}, {"loss_type": "paid"}, {"tri_type": "cum"}, {"train_only": False}, {"grcode": None}, {"lob": None}, {"lob": "wkcomp"}, {"loss_type": "p"}, {"loss_type": "i", "tri_type": "i"},
                   {"grname": "Y, Mut"}, {"grcode": np.int64(86)}, {"tri_type": "c", "train_only": False, "grcode": None}):
            if not query(obs, path, recs, kw, False):
                return
        for kw in ({"loss_type": "bulk"}, {"loss_type": ""}, {"loss_type": "xpaid"}, {"tri_type": "x", "lob": None, "grcode": None}, {"tri_type": "", "lob": None, "grcode": None},
                   {"grcode": "1767", "lob": None}, {"grname": "x ins grp", "lob": None, "grcode": None}, {"lob": "com"}, {"lob": ""}, {"grcode": 0, "lob": None}, {"grname": "", "lob": None, "grcode": None}):
            obs.step()
            try:
                got = trikit.load_lrdb(dataref={"lrdb": path}, **kw)
            except Exception:
                continue
            return obs.fail("load_lrdb(%s) was accepted: %s" % (kw, got))
        query(obs, path, recs, {"lob": None, "grcode": None}, False)
    finally:
        os.unlink(path)
    obs.trace()
