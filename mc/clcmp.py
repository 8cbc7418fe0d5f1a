"""Comparison of a base_cl (or Mack) result with the model chain ladder."""
import ref
from cmp import close, labels, frame, isnan, tri_diff, size


def compare_cl(obs, r, m, ldfs, what, ult_col=True, gaps=False):
    """r: result; m: model triangle; ldfs: model factors, tail included."""
    rows, cols, x = m
    cl = ref.chain_ladder(m, ldfs)
    sc = size(x)
    s = r.summary
    obs.step()
    bad = lambda msg: obs.fail("%s: %s (amounts %s, factors %s)" % (what, msg, x, ldfs))
    if labels(list(s.index)[:-1]) != labels(rows) or list(s.index)[-1] != "total":
        return bad("summary rows %s" % list(s.index))
    if labels(r.ldfs.index) != labels(cols) or not all(close(a, b) for a, b in zip(r.ldfs, ldfs)):
        return bad("ldfs %s" % dict(r.ldfs))
    if list(s["maturity"]) != [str(v) for v in cl["maturity"]] + [""]:
        return bad("maturity %s, expected %s" % (list(s["maturity"]), cl["maturity"]))
    for col in ("cldf", "emergence", "latest", "ultimate", "reserve"):
        want = cl[col]
        tot = None if col in ("cldf", "emergence") else sum(want)
        for o, a, b in zip(list(s.index), list(s[col]), want + [tot]):
            obs.step()
            scale = sc * max(cl["cldfs"]) if col in ("ultimate", "reserve") else 0.0
            if not close(a, b, scale):
                return bad("%s of %s is %r, expected %r" % (col, o, a, b))
    for attr, col in (("emergence", "emergence"), ("ultimate", "ultimate"), ("maturity", "maturity"), ("reserve", "reserve"),
                      ("latest", "latest"), ("cldfs", "cldf")):
        if list(map(str, getattr(r, attr))) != list(map(str, s[col])):
            return bad("attribute %s %s is not the summary's %s" % (attr, list(getattr(r, attr)), list(s[col])))
    f = r.trisqrd
    if ult_col:
        if list(f.columns)[-1] != "ultimate":
            return bad("trisqrd columns %s" % list(f.columns))
        for o, a, b in zip(rows, list(f["ultimate"]), cl["sq_ultimate"]):
            if not close(a, b, sc):
                return bad("trisqrd ultimate of %s is %r, expected %r" % (o, a, b))
        if not gaps:
            for o, a, b in zip(rows, list(f["ultimate"]), list(s["ultimate"])):
                if not close(a, b, sc):
                    return bad("trisqrd ultimate of %s is %r but the summary says %r" % (o, a, b))
        f = f.drop(columns="ultimate")
    msg = tri_diff(f, (rows, cols, cl["trisqrd"]), "trisqrd", sc)
    if msg:
        return bad(msg)
    return True
