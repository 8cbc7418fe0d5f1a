"""
Controlled execution of trikit calls: every executed source line of the package is a step, at which a call
can be interrupted (an injected exception) or preempted (another thread runs). `state_of` digests everything
reachable from the objects involved, so that points with equal (position, state) are explored once.
"""
import hashlib
import os
import pickle
import sys
import threading
import numpy as np
import pandas as pd
import trikit

ROOT = os.path.dirname(os.path.abspath(trikit.__file__)) + os.sep
PANDAS = {"_mgr", "_item_cache", "_attrs", "_flags", "_metadata", "_cacher", "_name"}


def _content(x, memo, h, depth=0):
    """Feeds a canonical form of x and of everything reachable from it to h."""
    if id(x) in memo:
        h.update(b"@%d" % memo[id(x)][0])
        return
    if isinstance(x, (type(None), bool, int, float, complex, str, bytes, np.generic)):
        h.update(repr(x).encode())
        return
    memo[id(x)] = (len(memo), x)
    h.update(type(x).__name__.encode())
    if isinstance(x, (pd.DataFrame, pd.Series, pd.Index)):
        v = x.to_numpy()
        if v.dtype == object:
            h.update(repr(v.tolist()).encode())
        else:
            h.update(str(v.dtype).encode() + np.ascontiguousarray(v).tobytes())
        if not isinstance(x, pd.Index):
            _content(x.index, memo, h, depth + 1)
        if isinstance(x, pd.DataFrame):
            h.update(repr([str(d) for d in x.dtypes]).encode())
            _content(x.columns, memo, h, depth + 1)
            for k in sorted(vars(x)):
                if k not in PANDAS:
                    h.update(k.encode())
                    _content(vars(x)[k], memo, h, depth + 1)
    elif isinstance(x, np.ndarray):
        h.update(str(x.shape).encode() + (repr(x.tolist()).encode() if x.dtype == object else np.ascontiguousarray(x).tobytes()))
    elif isinstance(x, dict):
        for k, v in x.items():
            h.update(repr(k).encode())
            _content(v, memo, h, depth + 1)
    elif isinstance(x, (list, tuple, set, frozenset)):
        for v in x:
            _content(v, memo, h, depth + 1)
    elif isinstance(x, np.random.RandomState):
        h.update(pickle.dumps(x.get_state()))
    elif type(x).__module__.startswith("trikit"):
        for k, v in sorted(vars(x).items()):
            h.update(k.encode())
            _content(v, memo, h, depth + 1)
    # anything else (functions, frozen distributions, formatters) counts by its type only


def state_of(*objs):
    h = hashlib.blake2b(digest_size=10)
    memo = {}
    for x in objs:
        _content(x, memo, h)
    # data held by the package itself (module level, class level)
    for name in sorted(m for m in sys.modules if m == "trikit" or m.startswith("trikit.")):
        for k, v in sorted(vars(sys.modules[name]).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, (pd.DataFrame, pd.Series, np.ndarray, dict, list, set, tuple, int, float, str)):
                h.update(k.encode())
                _content(v, memo, h)
            elif hasattr(v, "cache_info"):
                h.update(repr(v.cache_info().currsize).encode())
            elif isinstance(v, type) and v.__module__.startswith("trikit"):
                for a, b in sorted(vars(v).items()):
                    b = getattr(b, "__func__", b)
                    if hasattr(b, "cache_info"):
                        h.update(repr(b.cache_info().currsize).encode())
                    if isinstance(b, (pd.DataFrame, pd.Series, np.ndarray, dict, list, set, int, float)) and not a.startswith("__"):
                        h.update(a.encode())
                        _content(b, memo, h)
    return h.hexdigest()


class Stepper:
    """Calls `at(k, frame)` before each executed line (and at each call) of the package, within the thread that uses it."""
    def __init__(self, at, opcodes=False):
        self.at, self.k, self.on, self.kind = at, 0, False, "opcode" if opcodes else "line"

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if event == "call" and self.kind == "opcode":
            frame.f_trace_opcodes = True
        if event == self.kind and self.on:
            k = self.k
            self.k += 1
            self.at(k, frame)
        return self._trace

    def run(self, f):
        old = sys.gettrace()
        self.on = True
        sys.settrace(self._trace)
        try:
            return f()
        finally:
            self.on = False
            sys.settrace(old)


def position(frame, grain):
    """The stack of package functions (and lines, and instructions) being executed."""
    out = []
    while frame is not None:
        if frame.f_code.co_filename.startswith(ROOT):
            out.append((frame.f_code.co_name, 0 if grain == "function" else frame.f_lineno, frame.f_lasti if grain == "opcode" else 0))
        frame = frame.f_back
    return tuple(out)


def points(make, op, grain="line"):
    """
    The steps of op on a new world, one for each distinct (position, state of the world).
    grain: "function" (one for each state within each function activation), "line" or "opcode".
    Returns ([(k, state)], number of steps, result).
    """
    w = make()
    seen, out = set(), []

    def at(k, frame):
        key = (position(frame, grain), state_of(vars(w)))
        if key not in seen:
            seen.add(key)
            out.append((k, key[1]))
    s = Stepper(at, grain == "opcode")
    r = s.run(lambda: op(w))
    return out, s.k, r


def interrupted(w, op, k, exc, opcodes=False):
    """Runs op and raises exc at step k. Returns (whether it was raised, whether op raised it, result)."""
    hit = []

    def at(n, frame):
        if n == k:
            hit.append(1)
            raise exc
    try:
        r = Stepper(at, opcodes).run(lambda: op(w))
    except type(exc) as e:
        return bool(hit), True, None
    return bool(hit), False, r


class Schedule:
    """
    Two threads under a controlled scheduler. first: thread A runs to step k, then B to step j (None: to its end),
    then A to its end, then B to its end.
    """
    def __init__(self, a, b, k, j=None):
        self.fs, self.k, self.j = (a, b), k, j
        self.res = [None, None]
        self.turn = [threading.Event(), threading.Event()]
        self.steps = [0, 0]
        self.done = [False, False]

    def _yield(self, me):
        if self.done[1 - me]:
            return
        self.turn[me].clear()
        self.turn[1 - me].set()
        if not self.turn[me].wait(60):
            raise RuntimeError("schedule stuck")

    def _thread(self, me):
        def at(n, frame):
            self.steps[me] = n + 1
            if me == 0 and n == self.k:
                self._yield(0)
            elif me == 1 and n == self.j:
                self._yield(1)
            else:
                return
            # the rest of this call needs no further steps
            sys.settrace(None)
            while frame is not None:
                frame.f_trace = None
                frame = frame.f_back
        self.turn[me].wait(60)
        try:
            self.res[me] = ("ok", self.fs[me]() if (self.k, self.j)[me] is None else Stepper(at).run(self.fs[me]))
        except BaseException as e:
            self.res[me] = ("raised", "%s: %s" % (type(e).__name__, e))
        self.done[me] = True
        self.turn[1 - me].set()

    def run(self):
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.turn[0].set()
        for t in ts:
            t.join(90)
        if any(t.is_alive() for t in ts):
            return [("raised", "schedule did not finish")] * 2
        return self.res
