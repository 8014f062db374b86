"""Puts the package's module-level state back to what it was after import, so
that what one path or replay leaves behind (caches, counters, defaults that
were edited) does not reach the next one."""
import sys
import types

PKG = "py_fatigue"
BOXES = (dict, list, set)
_snap = None


def _functions(mod):
    for v in list(vars(mod).values()):
        if getattr(v, "__module__", None) != mod.__name__:
            continue
        if isinstance(v, type):
            for w in list(vars(v).values()):
                w = getattr(w, "__func__", w)
                yield getattr(w, "fget", None) or w
        else:
            yield v


def _plain(a):
    return not a.startswith(("__", "_abc"))


def _take():
    spaces, boxes, caches, classes = [], [], [], []

    def box(v):
        if type(v) in BOXES:
            boxes.append((v, v.copy()))

    for name, mod in sorted(sys.modules.items()):
        if name != PKG and not name.startswith(PKG + "."):
            continue
        spaces.append((mod, dict(vars(mod))))
        for k, v in list(vars(mod).items()):
            if k.startswith("__"):
                continue
            box(v)
            if isinstance(v, type) and v.__module__ == name:
                own = {a: w for a, w in vars(v).items() if _plain(a)}
                classes.append((v, own))
                for w in own.values():
                    box(w)
        for f in _functions(mod):
            if hasattr(f, "cache_clear"):
                caches.append(f)
            f = getattr(f, "__wrapped__", None) or getattr(f, "py_func", f)
            if isinstance(f, types.FunctionType):
                boxes.append((f.__dict__, dict(f.__dict__)))
                for v in (f.__defaults__ or ()):
                    box(v)
                for v in (f.__kwdefaults__ or {}).values():
                    box(v)
    return spaces, boxes, caches, classes


def reset():
    global _snap
    if _snap is None:
        __import__(PKG)
        _snap = _take()
        return
    spaces, boxes, caches, classes = _snap
    for mod, was in spaces:
        now = vars(mod)
        for k in list(now):
            if k not in was and not isinstance(now[k], types.ModuleType):
                del now[k]
        for k, v in was.items():
            if now.get(k, reset) is not v:
                now[k] = v
    for c, was in classes:
        now = vars(c)
        for k in [k for k in now if _plain(k) and k not in was]:
            delattr(c, k)
        for k, v in was.items():
            if now.get(k, reset) is not v:
                setattr(c, k, v)
    for v, was in boxes:
        if isinstance(v, list):
            if len(v) != len(was) or any(a is not b for a, b in zip(v, was)):
                v[:] = was
        elif v != was if isinstance(v, set) else (
                len(v) != len(was)
                or any(v.get(k, reset) is not w for k, w in was.items())):
            v.clear()
            v.update(was)
    for f in caches:
        f.cache_clear()
