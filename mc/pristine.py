"""
Data the package itself holds (modules, classes, caches of functions) is put back as it was after import,
so that every case (and every schedule) starts from a fresh process as far as trikit is concerned.
"""
import copy
import sys
import types

_SNAP = None


def _modules():
    return [sys.modules[m] for m in sorted(sys.modules) if m == "trikit" or m.startswith("trikit.")]


def _holders():
    for m in _modules():
        yield m
        for v in list(vars(m).values()):
            if isinstance(v, type) and v.__module__ == m.__name__:
                yield v


def _copy(v):
    if isinstance(v, (dict, list, set)):
        try:
            return copy.deepcopy(v)
        except Exception:
            return None
    return None


def snapshot():
    global _SNAP
    _SNAP = [(h, {k: (v, _copy(v)) for k, v in vars(h).items() if not k.startswith("__")}) for h in _holders()]


def reset():
    if _SNAP is None:
        return
    for h, names in _SNAP:
        now = vars(h)
        for k in [k for k in now if k not in names and not k.startswith("__") and not isinstance(now[k], types.ModuleType)]:
            try:
                delattr(h, k)
            except Exception:
                pass
        for k, (v, c) in names.items():
            if k not in now or now[k] is not v:
                setattr(h, k, v)
            if c:
                v.clear()
                (v.extend if isinstance(v, list) else v.update)(copy.deepcopy(c))
            elif c is not None:
                v.clear()
            f = getattr(v, "__func__", v)
            f = f.fget if isinstance(f, property) else f
            if hasattr(f, "cache_clear"):
                f.cache_clear()
