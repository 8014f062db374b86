"""Imports the package under test from its current source for symbolic runs.

The source text is compiled unchanged; only the names it resolves outside
itself (numpy, math, time.sleep, pydantic, a few builtins) are replaced by
symbolic-aware equivalents.  numba is real, with NUMBA_DISABLE_JIT=1, so the
jitted functions run as the Python they are written in.
"""
from __future__ import annotations

import builtins
import dataclasses
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
import typing

import numpy as np

from . import npshim, sym
from .sym import SB, SR

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "py_fatigue"

_isinstance = builtins.isinstance
_float = builtins.float


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, _float) or (
            _isinstance(x, SR) and not x.isint
        )

    def __subclasscheck__(cls, c):
        return issubclass(c, _float)

    def __call__(cls, x=0.0):
        if _isinstance(x, SR):
            return sym._as_float(x)
        if _isinstance(x, SB):
            return _float(bool(x))
        if _isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.reshape(-1)[0])
        return _float(x)

    def __eq__(cls, o):
        return o is cls or o is _float

    def __hash__(cls):
        return hash(_float)


class Float(_float, metaclass=_FloatMeta):
    pass


Float.__name__ = "float"
Float.__qualname__ = "float"


def _map_cls(c):
    if _isinstance(c, tuple):
        return tuple(_map_cls(x) for x in c)
    return _float if c is Float else c


def sym_isinstance(x, cls):
    if _isinstance(x, SR):
        cls = _map_cls(cls)
        if _isinstance(0 if x.isint else np.float64(0.0), cls):
            return True
        return _isinstance(x, cls)
    if _isinstance(x, SB):
        cls = _map_cls(cls)
        return _isinstance(True, cls) or _isinstance(x, cls)
    return _isinstance(x, cls)


def _fix_dtype(kw):
    return kw


_real_import = builtins.__import__


# ------------------------------------------------------------- pydantic


class ValidationError(ValueError):
    pass


class _PositiveFloat:
    pass


def _field_type(tp):
    origin = typing.get_origin(tp)
    if origin is typing.Union:
        return ("opt", [t for t in typing.get_args(tp)])
    return tp


def _validate(tp, v, strict=False):
    """small model of pydantic's lax validation for the types we meet"""
    if _isinstance(tp, str):
        tp = {"PositiveFloat": _PositiveFloat, "float": _float, "str": str,
              "int": int}.get(tp, None)
    if tp is None:
        return v
    if typing.get_origin(tp) is typing.Union:
        args = typing.get_args(tp)
        if v is None and type(None) in args:
            return v
        return _validate([a for a in args if a is not type(None)][0], v)
    if typing.get_origin(tp) is not None and hasattr(tp, "__metadata__"):
        base = typing.get_args(tp)[0]
        v = _validate(base, v)
        for md in tp.__metadata__:
            _apply_md(md, v)
        return v
    real = {
        "PositiveFloat": _PositiveFloat,
    }.get(getattr(tp, "__name__", ""), tp)
    if real is _PositiveFloat:
        v = _as_num(v)
        if not bool(v > 0):
            raise ValueError("Input should be greater than 0")
        return v
    if tp is Float or tp is _float:
        return _as_num(v)
    if tp is str:
        if not _isinstance(v, str):
            raise ValueError("Input should be a valid string")
        return v
    return v


def _apply_md(md, v):
    for n, op in (("gt", ">"), ("ge", ">="), ("lt", "<"), ("le", "<=")):
        b = getattr(md, n, None)
        if b is not None and not bool(sym.compare(op, v, b) if
                                      _isinstance(v, SR) else
                                      sym._OPS[op](v, b)):
            raise ValueError("constraint %s %s" % (op, b))
    for sub in getattr(md, "metadata", ()) or ():
        _apply_md(sub, v)


def _as_num(v):
    if _isinstance(v, SR):
        return sym._as_float(v)
    if _isinstance(v, (bool,)):
        return _float(v)
    if _isinstance(v, (int, _float, np.number)):
        return _float(v)
    if _isinstance(v, str):
        return _float(v)
    raise ValueError("Input should be a valid number")


class _Validator:
    def __init__(self, fields, fn, kind, mode):
        self.fields = fields
        self.fn = fn
        self.kind = kind
        self.mode = mode

    def __get__(self, obj, owner):
        f = self.fn
        f = f.__func__ if _isinstance(f, (classmethod, staticmethod)) else f
        return types.MethodType(f, owner)


def _mk_validator(kind):
    def validator(*fields, pre=False, always=False, mode="after", **kw):
        def deco(fn):
            return _Validator(fields, fn, kind, "before" if pre else mode)

        return deco

    return validator


def _model_validator(*, mode="after"):
    def deco(fn):
        return _Validator((), fn, "model", mode)

    return deco


def _call_validator(cls, v, val, values, name):
    f = v.fn
    f = f.__func__ if _isinstance(f, (classmethod, staticmethod)) else f
    n = f.__code__.co_argcount
    names = f.__code__.co_varnames[:n]
    args = []
    if _isinstance(v.fn, staticmethod):
        rest = names
    else:
        args.append(cls)
        rest = names[1:]
    args.append(val)
    if len(rest) > 1:
        if v.kind == "validator":
            args.append(values)
        else:
            args.append(types.SimpleNamespace(data=values, field_name=name))
    return f(*args)


def pyd_dataclass(_cls=None, **opts):
    opts = {
        k: v for k, v in opts.items()
        if k in ("init", "repr", "eq", "order", "frozen", "kw_only")
    }

    def wrap(cls):
        vals = [
            v for k in reversed(cls.__mro__) for v in vars(k).values()
            if _isinstance(v, _Validator)
        ]
        # keep validators out of the dataclass machinery
        dc = dataclasses.dataclass(**opts)(cls)
        fields = dataclasses.fields(dc)
        orig_init = dc.__init__
        hints = {}
        for k in reversed(cls.__mro__):
            hints.update(getattr(k, "__annotations__", {}))

        def __init__(self, *a, **kw):
            names = [f.name for f in fields if f.init]
            if len(a) > len(names):
                raise TypeError("too many positional arguments")
            data = dict(zip(names, a))
            for k_, v_ in kw.items():
                if k_ in data or k_ not in names:
                    raise ValidationError("unexpected argument %s" % k_)
                data[k_] = v_
            errors = []
            values = {}
            for v in vals:
                if v.kind == "model" and v.mode == "before":
                    f = v.fn.__func__ if hasattr(v.fn, "__func__") else v.fn
                    data = f(cls, data)
            for f in fields:
                if not f.init:
                    continue
                if f.name not in data:
                    if f.default is not dataclasses.MISSING:
                        values[f.name] = f.default
                    elif f.default_factory is not dataclasses.MISSING:
                        values[f.name] = f.default_factory()
                    else:
                        errors.append("%s: Field required" % f.name)
                    continue
                try:
                    x = data[f.name]
                    for v in vals:
                        if f.name in v.fields and v.mode == "before":
                            x = _call_validator(cls, v, x, values, f.name)
                    x = _validate(hints.get(f.name), x)
                    for v in vals:
                        if f.name in v.fields and v.mode != "before":
                            x = _call_validator(cls, v, x, values, f.name)
                    values[f.name] = x
                except (ValueError, AssertionError) as e:
                    errors.append("%s: %s" % (f.name, e))
            if errors:
                raise ValidationError("; ".join(errors))
            for k_, v_ in values.items():
                object.__setattr__(self, k_, v_)
            if hasattr(self, "__post_init__"):
                self.__post_init__()
            for v in vals:
                if v.kind == "model" and v.mode == "after":
                    f = v.fn.__func__ if hasattr(v.fn, "__func__") else v.fn
                    try:
                        f(self)
                    except (ValueError, AssertionError) as e:
                        raise ValidationError(str(e))

        __init__.__wrapped__ = orig_init
        dc.__init__ = __init__
        return dc

    return wrap(_cls) if _cls is not None else wrap


def _pydantic_modules():
    import pydantic
    import pydantic.dataclasses
    import pydantic.types

    top = types.ModuleType("pydantic")
    for n in dir(pydantic):
        if not n.startswith("__"):
            try:
                setattr(top, n, getattr(pydantic, n))
            except Exception:  # lazily removed attributes
                pass
    dcm = types.ModuleType("pydantic.dataclasses")
    dcm.dataclass = pyd_dataclass
    tpm = types.ModuleType("pydantic.types")
    for n in dir(pydantic.types):
        if not n.startswith("__"):
            setattr(tpm, n, getattr(pydantic.types, n))
    for m in (top, tpm):
        m.PositiveFloat = _PositiveFloat
    top.validator = _mk_validator("validator")
    top.field_validator = _mk_validator("field_validator")
    top.model_validator = _model_validator
    top.ValidationError = ValidationError
    top.dataclasses = dcm
    top.types = tpm
    return {
        "pydantic": top,
        "pydantic.dataclasses": dcm,
        "pydantic.types": tpm,
    }


_PYD = None
_TIME = None


def _numba_proxy():
    import numba

    m = types.ModuleType("numba")
    m.__path__ = getattr(numba, "__path__", [])
    for n in dir(numba):
        if not n.startswith("__"):
            try:
                setattr(m, n, getattr(numba, n))
            except Exception:
                pass

    def vectorize(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return npshim.f_vectorize(a[0])
        return lambda f: npshim.f_vectorize(f)

    m.vectorize = vectorize
    m.prange = range
    return m


_NB = None


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    global _PYD, _TIME, _NB
    real = _real_import(name, globals, locals, fromlist, level)
    if level:
        return real
    if name == "numpy" or name.startswith("numpy."):
        if name == "numpy" or not fromlist:
            return npshim.NP
        return real
    if name == "math":
        return npshim.MATH
    if name == "numba":
        if _NB is None:
            _NB = _numba_proxy()
        return _NB
    if name == "time":
        if _TIME is None:
            _TIME = types.ModuleType("time")
            for n in dir(real):
                if not n.startswith("__"):
                    setattr(_TIME, n, getattr(real, n))
            _TIME.sleep = lambda s=0: None
        return _TIME
    if name == "pydantic" or name.startswith("pydantic."):
        if _PYD is None:
            _PYD = _pydantic_modules()
        if fromlist:
            return _PYD.get(name, real)
        return _PYD["pydantic"]
    return real


def _builtins():
    d = dict(vars(builtins))
    d["float"] = Float
    d["isinstance"] = sym_isinstance
    d["__import__"] = sym_import
    d["print"] = lambda *a, **k: None
    return d


BUILTINS = _builtins()


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        with open(self.path, "rb") as f:
            src = f.read()
        return compile(src, self.path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__builtins__"] = BUILTINS
        exec(self.get_code(module.__name__), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.exists(init):
            return importlib.util.spec_from_file_location(
                fullname,
                init,
                loader=Loader(fullname, init),
                submodule_search_locations=[base],
            )
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(fullname, f)
            )
        return None


def install():
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
