"""
Self-assessment, not run by any check: systematic small changes of trikit's source.

    mutate.py list                       prints the number of mutants per file
    mutate.py run OUT.jsonl [stride [procs [every [offset]]]]

Every mutant is applied in a scratch copy of the repository; the stable tests run on it and,
when they pass, the checks run on every stride-th case until one reports a violation.
Results: one line per mutant with status killed-by-tests / killed (check) / survived.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(os.path.dirname(HERE), "mc")
REPO = "/repo"
FILES = ["trikit/triangle.py", "trikit/utils.py", "trikit/estimators/base.py", "trikit/estimators/mack.py", "trikit/estimators/bootstrap.py"]
SKIPFN = {"__str__", "__repr__", "glm"}
COSMETIC = {"plot", "_combined_view", "_faceted_view", "diagnostics", "hist"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"]}
NAMES = {"min": ["max"], "max": ["min"], "sum": ["mean"], "mean": ["median", "sum"], "first": ["last"], "any": ["all"], "all": ["any"], "std": ["var"],
         "cumprod": ["cumsum"], "cumsum": ["cumprod"], "head": ["tail"], "sqrt": ["abs"], "abs": ["sqrt"], "median": ["mean"], "ffill": ["bfill"],
         "nunique": ["count"], "unique": ["sort"], "floor": ["ceil"], "isnan": ["isfinite"], "columns": ["index"], "index": ["columns"],
         "last_valid_index": ["first_valid_index"], "logical_and": ["logical_or"], "ultimate": ["latest"]}
DROP = {"copy", "sort_index", "sort_values", "dropna", "drop_duplicates", "astype", "reset_index", "fillna", "abs", "sort", "rename", "lower", "strip", "shift", "cumsum", "iloc"}


def functions(tree):
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            yield node


class Src:
    def __init__(self, text):
        self.text = text
        self.starts = [0]
        for line in text.encode().splitlines(True):
            self.starts.append(self.starts[-1] + len(line))
        self.raw = text.encode()

    def span(self, node):
        return self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset

    def seg(self, a, b):
        return self.raw[a:b].decode()


def mutants(path):
    text = open(os.path.join(REPO, path)).read()
    s = Src(text)
    tree = ast.parse(text)
    out = []

    def add(fn, a, b, new, what):
        out.append({"file": path, "fn": fn, "line": s.raw[:a].count(b"\n") + 1, "a": a, "b": b, "old": s.seg(a, b), "new": new, "what": what})

    for cls in [tree] + [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        for f in cls.body:
            if not isinstance(f, ast.FunctionDef) or f.name in SKIPFN:
                continue
            name = (cls.name + "." if isinstance(cls, ast.ClassDef) else "") + f.name
            cosmetic = f.name in COSMETIC
            doc = f.body[0] if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else None
            nodes = []
            for st in f.body + f.args.defaults:
                if st is not doc:
                    nodes += list(ast.walk(st))
            for n in nodes:
                if not hasattr(n, "lineno"):
                    continue
                a, b = s.span(n)
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    l, r = s.span(n.left)[1], s.span(n.comparators[0])[0]
                    for new in CMP.get(type(n.ops[0]), []):
                        add(name, l, r, " %s " % new, "compare")
                elif isinstance(n, ast.BinOp):
                    l, r = s.span(n.left)[1], s.span(n.right)[0]
                    mid = s.seg(l, r)
                    for new in BIN.get(type(n.op), []):
                        sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%"}[type(n.op)]
                        if mid.count(sym) == 1 and not isinstance(n.left, ast.Constant) or isinstance(getattr(n.left, "value", None), (int, float)):
                            add(name, l, r, mid.replace(sym, new), "arith")
                elif isinstance(n, ast.BoolOp):
                    l, r = s.span(n.values[0])[1], s.span(n.values[1])[0]
                    add(name, l, r, " or " if isinstance(n.op, ast.And) else " and ", "bool")
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
                    add(name, a, s.span(n.operand)[0], "", "unary")
                elif isinstance(n, ast.Constant) and not cosmetic:
                    if n.value is True or n.value is False:
                        add(name, a, b, str(not n.value), "const")
                    elif isinstance(n.value, (int, float)):
                        for new in (n.value + 1, n.value - 1):
                            add(name, a, b, "(%r)" % new, "const")
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    if n.func.attr in DROP:
                        add(name, s.span(n.func.value)[1], b, "", "dropcall")
                    for kw in n.keywords:
                        if kw.arg and not cosmetic:
                            ka, kb = s.span(kw)
                            rest = s.raw[kb:b].decode()
                            if rest.lstrip().startswith(","):
                                kb += rest.index(",") + 1
                            add(name, ka, kb, "", "dropkw")
                if isinstance(n, ast.Attribute) and n.attr in NAMES:
                    for new in NAMES[n.attr]:
                        add(name, b - len(n.attr), b, new, "name")
                if isinstance(n, ast.IfExp):
                    t = s.span(n.test)
                    add(name, t[0], t[1], "not (%s)" % s.seg(*t), "ifexp")
                if isinstance(n, (ast.If,)):
                    t = s.span(n.test)
                    add(name, t[0], t[1], "False", "if")
                    add(name, t[0], t[1], "True", "if")
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n is not doc and not cosmetic:
                    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                        continue
                    add(name, a, b, "pass", "dropstmt")
    seen, uniq = set(), []
    for m in out:
        k = (m["a"], m["b"], m["new"])
        if k in seen:
            continue
        seen.add(k)
        mut = s.raw[:m["a"]] + m["new"].encode() + s.raw[m["b"]:]
        try:
            compile(mut, path, "exec")
        except SyntaxError:
            continue
        uniq.append(m)
    return uniq


def order_of(m):
    """Checks most likely to notice first."""
    allp = ["T%02d" % k for k in range(1, 32) if k not in (27, 28, 29)]
    f, fn = m["file"], m["fn"].split(".")[-1]
    first = {
        "trikit/utils.py": ["T21", "T22", "T24"],
        "trikit/triangle.py": ["T01", "T05", "T06", "T02", "T03", "T07", "T24", "T23", "T14"],
        "trikit/estimators/base.py": ["T08", "T09", "T20", "T23", "T24", "T11"],
        "trikit/estimators/mack.py": ["T12", "T13", "T11", "T14", "T23", "T20", "T07", "T24"],
        "trikit/estimators/bootstrap.py": ["T15", "T17", "T16", "T18", "T20", "T23", "T24"],
    }[f]
    if fn in COSMETIC or "transform" in fn or "residuals_by" in fn:
        first = ["T23"] + [x for x in first if x != "T23"]
    if fn in ("_validate",):
        first = ["T24"] + [x for x in first if x != "T24"]
    return first + [x for x in allp if x not in first]


MINI = r'''
import sys, os
sys.path.insert(0, %r)
import core, importlib
core._quiet()
import pristine
stride = int(sys.argv[1])
core.CASE_SECONDS = 60
try:
    importlib.import_module("trikit")
except Exception as e:
    print("KILLED import", e); sys.exit(1)
pristine.snapshot()
for pid in sys.argv[2].split(","):
    c = core.load(pid)
    for k, case in enumerate(c.cases("quick")):
        if k %% stride and k > 3:
            continue
        o = core.run_case(c, case)
        if o.fails:
            print("KILLED", pid, str(o.fails[0])[:200].replace("\n", " ")); sys.exit(1)
print("SURVIVED")
''' % MC


def job(args):
    m, stride = args
    w = "/tmp/mut/w%d" % os.getpid()
    if not os.path.isdir(w):
        os.makedirs("/tmp/mut", exist_ok=True)
        shutil.copytree(REPO, w, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs"))
    p = os.path.join(w, m["file"])
    raw = open(os.path.join(REPO, m["file"]), "rb").read()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=w, PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR=w + "/mpl", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONWARNINGS="ignore", TRIKIT_MC_SCRATCH=w)
    try:
        open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--deselect", "NONE", "--maxfail=3", "--tb=no", "trikit"],
                               cwd=w, env=env, capture_output=True, text=True, timeout=300)
            tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else ""
        except subprocess.TimeoutExpired:
            return dict(m, status="killed-by-tests", by="timeout")
        if "82 passed" not in tail:
            return dict(m, status="killed-by-tests", by=tail)
        try:
            c = subprocess.run(["/opt/venv/bin/python", "-c", MINI, str(stride), ",".join(order_of(m))], cwd=w, env=env, capture_output=True, text=True, timeout=3600)
        except subprocess.TimeoutExpired:
            return dict(m, status="killed", by="timeout")
        out = [l for l in c.stdout.splitlines() if l.startswith(("KILLED", "SURVIVED"))]
        if not out:
            return dict(m, status="error", by=c.stderr[-300:])
        return dict(m, status="survived" if out[-1] == "SURVIVED" else "killed", by=out[-1][:240])
    finally:
        open(p, "wb").write(raw)


if __name__ == "__main__":
    ms = [m for f in FILES for m in mutants(f)]
    if sys.argv[1] == "list":
        import collections
        print(collections.Counter(m["file"] for m in ms), len(ms))
        sys.exit()
    outp = sys.argv[2]
    stride, procs, every, off = [int(x) for x in (sys.argv[3:] + ["15", "8", "1", "0"][len(sys.argv) - 3:])]
    done = set()
    if os.path.exists(outp):
        done = {(r["file"], r["old"], r["new"], r["line"], r["a"]) for r in map(json.loads, open(outp))}
    todo = [(m, stride) for k, m in enumerate(ms) if k % every == off and (m["file"], m["old"], m["new"], m["line"], m["a"]) not in done]
    with mp.Pool(procs) as pool, open(outp, "a") as f:
        for r in pool.imap_unordered(job, todo):
            f.write(json.dumps(r) + "\n")
            f.flush()
