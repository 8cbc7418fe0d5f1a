"""T28: results do not depend on ambient settings, and calls leave them as they were."""
import contextlib
import io
import itertools
import os
import pickle
import random
import subprocess
import sys
import tempfile
import warnings
import numpy as np
import pandas as pd
import trikit
import mk
import ops
import space
from cmp import canon, same

TRIS = {
    "t4": {"shape": [4, 4], "scheme": "year"}, "t5": {"shape": [5, 5], "scheme": "month"},
    "t6": {"shape": [6, 6], "scheme": "gap", "variant": 2}, "rect": {"shape": [3, 5], "scheme": "wide"},
    "neg": {"recs": [[i, j, -v if (i, j) in ((0, 2), (1, 3)) else v] for (i, j), v in sorted(space.runoff(5).items())], "scheme": "year"},
    "hole": {"recs": [[i, j, None if (i, j) == (1, 1) else v] for (i, j), v in sorted(space.runoff(5).items())], "scheme": "one"},
}
OPTS = [("mode.copy_on_write", True), ("compute.use_numexpr", False), ("compute.use_bottleneck", False), ("mode.chained_assignment", None),
        ("mode.chained_assignment", "raise"), ("display.precision", 1), ("display.float_format", "{:.0e}".format), ("display.max_rows", 1),
        ("display.max_columns", 1), ("display.width", 5), ("display.chop_threshold", 1e6), ("mode.sim_interactive", True),
        ("display.large_repr", "info"), ("display.date_dayfirst", True), ("io.excel.xlsx.writer", "openpyxl")]


@contextlib.contextmanager
def option(k):
    with pd.option_context(*OPTS[k]):
        yield


@contextlib.contextmanager
def cwd():
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        for n in ("datasets", "trikit", "raa.csv", "lrdb.csv"):
            os.mkdir(os.path.join(d, n))
        os.chdir(d)
        try:
            yield
        finally:
            os.chdir(old)


@contextlib.contextmanager
def filters(action):
    with warnings.catch_warnings():
        warnings.resetwarnings()
        warnings.simplefilter(action)
        with contextlib.redirect_stderr(io.StringIO()):
            yield


@contextlib.contextmanager
def seeds():
    s, r = np.random.get_state(), random.getstate()
    np.random.seed(99)
    random.seed(99)
    try:
        yield
    finally:
        np.random.set_state(s)
        random.setstate(r)


@contextlib.contextmanager
def env():
    old = {k: os.environ.get(k) for k in ("TZ", "LANG", "HOME")}
    os.environ.update(TZ="Asia/Tokyo", LANG="de_DE.UTF-8", HOME="/nonexistent")
    try:
        yield
    finally:
        for k, v in old.items():
            os.environ.pop(k) if v is None else os.environ.__setitem__(k, v)


SETTINGS = {"option%d" % k: (lambda k=k: option(k)) for k in range(len(OPTS))}
SETTINGS.update({
    "errstate-ignore": lambda: np.errstate(all="ignore"), "errstate-warn": lambda: np.errstate(all="warn"),
    "printoptions": lambda: np.printoptions(precision=1, threshold=3, suppress=True),
    "warn-always": lambda: filters("always"), "warn-ignore": lambda: filters("ignore"), "warn-once": lambda: filters("once"),
    "cwd": cwd, "seeds": seeds, "env": env,
})
PROCESS = [
    ([], {"PYTHONHASHSEED": "0"}), ([], {"PYTHONHASHSEED": "1"}), ([], {"PYTHONHASHSEED": "4242"}), (["-O"], {}), (["-OO"], {}),
    (["-X", "utf8=0"], {"LC_ALL": "C"}), (["-X", "dev"], {}), (["-W", "ignore"], {"TZ": "Asia/Tokyo"}), (["-X", "importtime"], {"OMP_NUM_THREADS": "2"}),
    (["-W", "default"], {"LANG": "de_DE.UTF-8"}),
]
MODULES = ("trikit.triangle", "trikit.utils", "trikit.datasets", "trikit.estimators", "trikit.estimators.base", "trikit.estimators.mack", "trikit.estimators.bootstrap")
IMPORT = """
import os, sys, random, warnings, logging, importlib, signal
for k in sys.argv[1:]:                       # what the package imports itself comes first
    try:
        importlib.import_module(k)
    except Exception:
        pass
import numpy as np, pandas as pd, scipy, scipy.stats, scipy.optimize, scipy.special, matplotlib, matplotlib.pyplot, matplotlib.ticker, matplotlib.lines, seaborn
def opts(d, path=""):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from opts(v, path + k + ".")
        else:
            yield path + k, repr(v)
def now():
    return {"pandas options": dict(opts(pd._config.config._global_config)), "numpy error state": np.geterr(),
            "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()}, "warning filters": [str(f) for f in warnings.filters],
            "working directory": os.getcwd(), "environment": dict(os.environ), "numpy generator": str(np.random.get_state()), "random": hash(random.getstate()),
            "path": list(sys.path), "backend": matplotlib.get_backend(), "figure defaults": {k: repr(v) for k, v in matplotlib.rcParams.items()},
            "figures": matplotlib.pyplot.get_fignums(), "recursion limit": sys.getrecursionlimit(), "hooks": [sys.excepthook is sys.__excepthook__, warnings.showwarning is show],
            "logging": [logging.root.level, len(logging.root.handlers)], "signals": [str(signal.getsignal(k)) for k in range(1, 32) if k not in (9, 19)]}
show = warnings.showwarning
before = now()
import trikit
for k in %r:
    importlib.import_module(k)
after = now()
for k in before:
    if before[k] != after[k]:
        a, b = before[k], after[k]
        print(k, {x: b[x] for x in b if b[x] != a.get(x)} if isinstance(b, dict) else [x for x in b if x not in a] if isinstance(b, list) else (a, b))
""" % (MODULES,)
EXPLAIN = "settings: pandas options %s; numpy error state, print options; warning filters; working directory with decoy files; global seeds; environment" % (
    ", ".join(sorted({o[0] for o in OPTS})))


def BOUNDS(tier):
    t = tier == "thorough"
    return {
        "settings": EXPLAIN + ("; every pair of settings" if t else "; every pair with copy-on-write; all at once"),
        "calls": "every public operation that is no exhibit (%d) under every setting, on %s; loading every sample dataset; every exhibit (%d) under every setting (drawn content compared)" % (
            len(ops.TEXT), "every triangle (%d)" % len(TRIS) if t else "a run-off triangle and a rectangle", len(ops.EXHIBITS)),
        "left alone": "pandas options, numpy error state and print options, warning filters, working directory and its files, environment, global "
                      "generators, default figure state, module search path, standard output and error",
        "processes": "%d interpreter configurations (hash seeds, optimisation levels, locale, developer mode): importing the package changes none of all that, of all pandas options, logging and signal handlers; all operations compared" % len(PROCESS),
    }


def cases(tier):
    t = tier == "thorough"
    names = sorted(SETTINGS)
    for tri in TRIS if t else ("t5", "rect"):
        for s in names:
            yield {"k": "set", "tri": tri, "s": [s]}
    for a, b in itertools.combinations(names, 2):
        if t or "option0" in (a, b):
            if OPTS[int(a[6:])][0] != OPTS[int(b[6:])][0] if a.startswith("option") and b.startswith("option") else True:
                yield {"k": "set", "tri": "t4", "s": [a, b]}
    yield {"k": "set", "tri": "t5", "s": [n for n in names if n not in ("warn-always", "warn-once", "errstate-warn", "option4")]}
    for p in range(len(PROCESS)):
        yield {"k": "import", "p": p}
        for tri in ("t4", "t5", "rect", "neg") if t else ("t5",):
            yield {"k": "process", "p": p, "tri": tri}
    for tri in TRIS if t else ("t4", "rect", "neg"):
        yield {"k": "alone", "tri": tri}
    for d in range(len(space.DATASETS)):
        yield {"k": "load", "d": d}
    for tri in TRIS if t else ("t4",):
        for n in ops.EXHIBITS:
            if tri != "rect" or not ops.BY[n][2]:
                yield {"k": "exhibit", "tri": tri, "n": n, "s": [names[k] for k in range(0, len(names), 2)]}
                yield {"k": "exhibit", "tri": tri, "n": n, "s": [names[k] for k in range(1, len(names), 2)]}


def usable(tri):
    return [n for n in ops.TEXT if not (tri == "rect" and ops.BY[n][2])]


def results(tri):
    out = {}
    for n in usable(tri):
        w = ops.World(mk.recs_of(TRIS[tri]))
        out[n] = ops.snap(ops.BY[n][1](w))
    return out


_EXPECT = {}


def expected(tri):
    if tri not in _EXPECT:
        _EXPECT[tri] = results(tri)
    return _EXPECT[tri]


def drawn():
    """Content of all open figures."""
    import matplotlib.pyplot as plt
    out = []
    for f in [plt.figure(k) for k in plt.get_fignums()]:
        f.canvas.draw()
        for ax in f.axes:
            out.append((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), canon(ax.get_xlim()), canon(ax.get_ylim()),
                        tuple(canon(x.get_xydata()) + (x.get_label(),) for x in ax.lines), tuple(canon(np.asarray(c.get_offsets())) for c in ax.collections),
                        tuple(canon(p.get_bbox().bounds) if hasattr(p, "get_bbox") else None for p in ax.patches),
                        tuple(t.get_text() for t in ax.texts + ax.get_xticklabels() + ax.get_yticklabels())))
    return tuple(out)


def exhibit(n, tri):
    import matplotlib.pyplot as plt
    w = ops.World(mk.recs_of(TRIS[tri]))
    got, close = [], plt.close

    def closing(*args):
        if args == ("all",) and not got:
            got.append(drawn())
        return close(*args)

    plt.close = closing
    np.random.seed(3)
    try:
        ops.BY[n][1](w)
    finally:
        plt.close = close
        close("all")
    return got[0]


def compare(obs, got, want, what):
    for n in want:
        obs.step()
        if not obs.check(n in got and same(got[n], want[n], 1e4), lambda: "%s: %s gives %s, expected %s" % (what, n, str(got.get(n))[:400], str(want[n])[:400])):
            return


def ambient():
    import matplotlib
    return {
        "pandas options": {k: repr(pd.get_option(k)) for k in OPTKEYS},
        "numpy error state": dict(np.geterr()), "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "warning filters": [str(f) for f in warnings.filters], "working directory": os.getcwd(), "files": sorted(os.listdir(".")),
        "environment": dict(os.environ), "numpy generator": [repr(x) if not hasattr(x, "tolist") else tuple(x.tolist()) for x in np.random.get_state()],
        "random": hash(random.getstate()), "path": list(sys.path), "backend": matplotlib.get_backend(),
        "figure defaults": {k: repr(v) for k, v in matplotlib.rcParams.items()},
        "figures": matplotlib.pyplot.get_fignums(), "recursion limit": sys.getrecursionlimit(), "hooks": (sys.excepthook is sys.__excepthook__),
    }


OPTKEYS = sorted({o[0] for o in OPTS} | {
    "display.min_rows", "display.max_colwidth", "display.max_info_rows", "display.expand_frame_repr", "display.colheader_justify", "display.show_dimensions",
    "display.notebook_repr_html", "display.encoding", "display.html.border", "mode.use_inf_as_na", "mode.string_storage", "future.infer_string",
    "plotting.backend", "plotting.matplotlib.register_converters", "display.unicode.east_asian_width", "display.multi_sparse"})


def run(case, obs):
    if case["k"] == "set":
        want = expected(case["tri"])
        with contextlib.ExitStack() as st:
            for s in case["s"]:
                st.enter_context(SETTINGS[s]())
            got = {}
            for n in usable(case["tri"]):
                w = ops.World(mk.recs_of(TRIS[case["tri"]]))
                try:
                    got[n] = ops.snap(ops.BY[n][1](w))
                except Exception as e:
                    got[n] = "raised %s: %s" % (type(e).__name__, e)
                obs.state(case["tri"], case["s"], n)
        compare(obs, got, want, "under %s" % [OPTS[int(s[6:])] if s.startswith("option") else s for s in case["s"]])
    elif case["k"] == "exhibit":
        n = case["n"]
        want = exhibit(n, case["tri"])
        obs.check(len(want) > 0, "%s draws nothing" % n)
        for s in case["s"]:
            with SETTINGS[s]():
                try:
                    got = exhibit(n, case["tri"])
                except Exception as e:
                    got = "raised %s: %s" % (type(e).__name__, e)
            obs.step()
            obs.state(case["tri"], n, s)
            obs.check(same(got, want, 1e4), lambda: "%s under %s: %s, expected %s" % (n, OPTS[int(s[6:])] if s.startswith("option") else s, str(got)[:300], str(want)[:300]))
    elif case["k"] == "process":
        flags, extra = PROCESS[case["p"]]
        want = expected(case["tri"])
        with tempfile.TemporaryDirectory() as d:
            out = os.path.join(d, "out.pickle")
            prog = ("import sys, pickle, warnings; from checks import T28; "
                    "pickle.dump(T28.results(%r), open(%r, 'wb'))" % (case["tri"], out))
            e = dict(os.environ, **extra)
            p = subprocess.run([sys.executable] + flags + ["-c", prog], cwd=d, env=e, capture_output=True, text=True)
            if not obs.check(p.returncode == 0, "python %s with %s fails: %s" % (flags, extra, p.stderr[-600:])):
                return
            got = pickle.load(open(out, "rb"))
            obs.check(sorted(os.listdir(d)) == ["out.pickle"], "files written to the working directory: %s" % sorted(os.listdir(d)))
            obs.check(p.stdout == "", "printed %r" % p.stdout[:300])
        obs.state(case)
        compare(obs, got, want, "python %s with %s" % (flags, extra))
    elif case["k"] == "import":
        flags, extra = PROCESS[case["p"]]
        with tempfile.TemporaryDirectory() as d:
            p = subprocess.run([sys.executable] + flags + ["-c", "import sys; a = set(sys.modules); import trikit, %s; print(*[m for m in sys.modules if m not in a])" % ", ".join(MODULES)],
                               cwd=d, env=dict(os.environ, **extra), capture_output=True, text=True)
            first = [m for m in p.stdout.split() if not m.startswith(("trikit", "__main"))]
            p = subprocess.run([sys.executable] + flags + ["-c", IMPORT] + first, cwd=d, env=dict(os.environ, **extra), capture_output=True, text=True)
            obs.step()
            obs.state(case)
            obs.check(p.returncode == 0, "import trikit in python %s with %s fails: %s" % (flags, extra, p.stderr[-600:]))
            obs.check(p.stdout == "", "import trikit changes %s" % p.stdout[:600])
            obs.check(os.listdir(d) == [], "import trikit writes files")
    elif case["k"] == "load":
        name = space.DATASETS[case["d"]]
        want = [ops.snap(trikit.load(name, tri_type=tt)) for tt in (None, "incr", "cum")]
        for s in sorted(SETTINGS):
            with SETTINGS[s]():
                got = [ops.snap(trikit.load(name, tri_type=tt)) for tt in (None, "incr", "cum")]
            obs.step(3)
            obs.state(name, s)
            obs.check(same(tuple(got), tuple(want)), "load %s differs under %s" % (name, s))
    else:
        import matplotlib.pyplot as plt
        w = ops.World(mk.recs_of(TRIS[case["tri"]]))
        for k in ("base", "incr") + (() if case["tri"] == "rect" else ("mack", "boot", "pboot")):
            w.get(k)
        names = usable(case["tri"]) + ["load"] + [n for n in ops.EXHIBITS if not (case["tri"] == "rect" and ops.BY[n][2])]
        with tempfile.TemporaryDirectory() as d:
            old = os.getcwd()
            os.chdir(d)
            try:
                for n in names:
                    shown = n in ops.EXHIBITS
                    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
                    before = ambient()
                    out, err = io.StringIO(), io.StringIO()
                    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                        if n == "load":
                            trikit.load("raa"), trikit.load("raa", tri_type="cum"), trikit.get_datasets()
                        else:
                            ops.BY[n][1](w)
                    after = ambient()
                    obs.step()
                    obs.state(case["tri"], n)
                    for k in before:
                        if shown and k in ("figure defaults", "numpy generator", "figures", "random"):
                            continue
                        obs.check(before[k] == after[k], lambda: "%s changes %s: %s" % (n, k, str(
                            [x for x in after[k] if x not in before[k]] if isinstance(after[k], list) else
                            {q: v for q, v in after[k].items() if before[k].get(q) != v} if isinstance(after[k], dict) else (before[k], after[k]))[:300]))
                    obs.check(out.getvalue() == "" and (shown or err.getvalue() == ""), "%s prints %r %r" % (n, out.getvalue()[:200], err.getvalue()[:200]))
                    plt.close("all")
            finally:
                os.chdir(old)
    obs.trace()
