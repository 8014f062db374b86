"""numpy for symbolic runs: object arrays of symbolic scalars.

`SymArray` is an object-dtype ndarray whose elements are np.float64, SR or SB.
`NP` is the module object handed to the code under test in place of numpy: all
floating point arrays it creates are SymArrays, functions without an object
implementation are re-expressed on the elements, everything else is the real
numpy function.
"""
from __future__ import annotations

import functools
import math
import operator
import types

import numpy as np

from . import sym
from .sym import SB, SR, Unsupported

_real = np


def is_sym(x):
    return isinstance(x, (SR, SB))


def has_sym(x):
    if isinstance(x, (SR, SB)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(is_sym(e) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def _elem(v):
    """normalise an element for storage"""
    if isinstance(v, (SR, SB, np.float64)):
        return v
    if isinstance(v, (float, np.floating)):
        return np.float64(v)
    return v


def to_sym(x):
    """anything array-like -> SymArray (object) ; ints become floats only if
    mixed with floats / symbols"""
    if isinstance(x, SymArray):
        return x
    a = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
    if a.dtype != object:
        if a.dtype.kind == "f":
            b = np.empty(a.shape, dtype=object)
            bf = b.reshape(-1)
            for i, v in enumerate(a.reshape(-1)):
                bf[i] = np.float64(v)
            return b.view(SymArray)
        return a.astype(object).view(SymArray)
    return a.view(SymArray)


def pack(vals, shape):
    """list of element values -> array of the tightest kind"""
    kinds = set()
    for v in vals:
        if isinstance(v, SR):
            kinds.add("i?" if v.isint else "f")
        elif isinstance(v, SB):
            kinds.add("B")
        elif isinstance(v, (bool, np.bool_)):
            kinds.add("b")
        elif isinstance(v, (int, np.integer)):
            kinds.add("i")
        elif isinstance(v, (float, np.floating)):
            kinds.add("f")
        else:
            kinds.add("o")
    if kinds == {"b"}:
        return np.array(vals, dtype=bool).reshape(shape)
    if kinds == {"i"}:
        return np.array(vals, dtype=np.int64).reshape(shape)
    b = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        b[i] = _elem(v)
    return b.reshape(shape).view(SymArray)


def unwrap(a):
    """0-d result -> scalar"""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a.item() if a.dtype == object else a[()]
    return a


def conc(x):
    """SymArray without symbols -> native array; leaves others alone"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        if has_sym(x):
            return x
        flat = [e for e in x.flat]
        if all(isinstance(e, (bool, np.bool_)) for e in flat) and flat:
            return np.array(flat, dtype=bool).reshape(x.shape)
        if all(isinstance(e, (int, np.integer)) for e in flat) and flat:
            return np.array(flat, dtype=np.int64).reshape(x.shape)
        try:
            return np.array(flat, dtype=float).reshape(x.shape)
        except (TypeError, ValueError):
            return np.asarray(x)
    if isinstance(x, (list, tuple)):
        return type(x)(conc(e) for e in x) if not hasattr(x, "_fields") else x
    return x


def resym(r):
    """result of a real numpy call -> floats become SymArray"""
    if isinstance(r, np.ndarray):
        if r.dtype.kind == "f":
            return to_sym(r)
        if r.dtype == object and not isinstance(r, SymArray):
            return r.view(SymArray)
        return r
    if isinstance(r, tuple) and not hasattr(r, "_fields"):
        return tuple(resym(e) for e in r)
    if isinstance(r, list):
        return [resym(e) for e in r]
    return r


# ------------------------------------------------------------------ scalars


def _bin(op):
    return lambda a, b: _b2(op, a, b)


def _b2(op, a, b):
    if not is_sym(a) and not is_sym(b):
        return sym._conc(op, a, b)
    r = sym.binop(op, a, b)
    if r is NotImplemented:
        raise TypeError("unsupported operand types")
    return r


def _cmp(rel):
    def f(a, b):
        if is_sym(a) or is_sym(b):
            return sym.compare(rel, a, b)
        return bool(sym._OPS[rel](a, b))

    return f


def _un(symf, name):
    def f(a):
        if is_sym(a):
            return symf(sym.lift(a) if isinstance(a, SB) else a)
        with np.errstate(all="ignore"):
            r = getattr(np, name)(a)
        return r

    return f


def _isnan(a):
    if is_sym(a):
        return False
    if a is None:
        raise TypeError(
            "ufunc 'isnan' not supported for the input types"
        )
    return bool(np.isnan(a))


def _isinf(a):
    return False if is_sym(a) else bool(np.isinf(a))


def _isfinite(a):
    return True if is_sym(a) else bool(np.isfinite(a))


def _fl(f):
    """integer valued function with float result"""

    def g(a):
        if isinstance(a, SR):
            return sym._as_float(f(a))
        return f(a)

    return g


def _modf(a):
    if isinstance(a, SR):
        i = sym._as_float(sym.s_trunc(a))
        return a - i, i
    return np.modf(a)


def _fmod(a, b):
    if is_sym(a) or is_sym(b):
        q = sym._as_float(sym.s_trunc(sym.s_div(a, b)))
        return a - b * q
    with np.errstate(all="ignore"):
        return np.fmod(a, b)


def _arctan2(a, b):
    raise Unsupported("arctan2")


def _fmax(a, b):
    if not is_sym(a) and a != a:
        return b
    if not is_sym(b) and b != b:
        return a
    return sym.s_max(a, b)


def _fmin(a, b):
    if not is_sym(a) and a != a:
        return b
    if not is_sym(b) and b != b:
        return a
    return sym.s_min(a, b)


def _truth(a):
    if isinstance(a, SB):
        return a
    if isinstance(a, SR):
        return a != 0
    return bool(a)


UF = {
    "add": _bin("add"),
    "subtract": _bin("sub"),
    "multiply": _bin("mul"),
    "divide": _bin("div"),
    "true_divide": _bin("div"),
    "floor_divide": _bin("floordiv"),
    "remainder": _bin("mod"),
    "mod": _bin("mod"),
    "fmod": _fmod,
    "power": _bin("pow"),
    "float_power": _bin("pow"),
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "absolute": sym.s_abs,
    "fabs": sym.s_abs,
    "abs": sym.s_abs,
    "conjugate": lambda a: a,
    "sign": sym.s_sign,
    "rint": _fl(_un(sym.s_rint, "rint")),
    "floor": _fl(_un(sym.s_floor, "floor")),
    "ceil": _fl(_un(sym.s_ceil, "ceil")),
    "trunc": _fl(_un(sym.s_trunc, "trunc")),
    "fix": _fl(_un(sym.s_trunc, "trunc")),
    "sqrt": _un(lambda a: sym.s_pow(a, sym.F(1, 2)), "sqrt"),
    "cbrt": _un(lambda a: sym.s_pow(a, sym.F(1, 3)), "cbrt"),
    "square": lambda a: _b2("mul", a, a),
    "reciprocal": lambda a: _b2("div", np.float64(1.0), a),
    "exp": _un(sym.s_exp, "exp"),
    "exp2": lambda a: _b2("pow", np.float64(2.0), a),
    "expm1": _un(lambda a: sym.s_exp(a) - 1, "expm1"),
    "log": _un(sym.s_log, "log"),
    "log10": _un(lambda a: sym.s_log(a) / math.log(10), "log10"),
    "log2": _un(lambda a: sym.s_log(a) / math.log(2), "log2"),
    "log1p": _un(lambda a: sym.s_log(a + 1), "log1p"),
    "sin": _un(lambda a: sym.s_trig("sin", a), "sin"),
    "cos": _un(lambda a: sym.s_trig("cos", a), "cos"),
    "tan": _un(lambda a: a.tan(), "tan"),
    "arcsin": _un(lambda a: sym.s_trig("arcsin", a), "arcsin"),
    "arccos": _un(lambda a: sym.s_trig("arccos", a), "arccos"),
    "arctan": _un(lambda a: sym.s_trig("arctan", a), "arctan"),
    "deg2rad": lambda a: _b2("mul", a, math.pi / 180),
    "rad2deg": lambda a: _b2("mul", a, 180 / math.pi),
    "hypot": lambda a, b: UF["sqrt"](
        _b2("add", _b2("mul", a, a), _b2("mul", b, b))
    ),
    "isnan": _isnan,
    "isinf": _isinf,
    "isfinite": _isfinite,
    "signbit": lambda a: a < 0,
    "maximum": sym.s_max,
    "minimum": sym.s_min,
    "fmax": _fmax,
    "fmin": _fmin,
    "less": _cmp("<"),
    "less_equal": _cmp("<="),
    "greater": _cmp(">"),
    "greater_equal": _cmp(">="),
    "equal": _cmp("=="),
    "not_equal": _cmp("!="),
    "logical_and": lambda a, b: sym.sb_and(_truth(a), _truth(b)),
    "logical_or": lambda a, b: sym.sb_or(_truth(a), _truth(b)),
    "logical_xor": lambda a, b: _truth(a) ^ _truth(b),
    "logical_not": lambda a: sym.sb_not(_truth(a)),
    "bitwise_and": lambda a, b: (
        sym.sb_and(a, b) if is_sym(a) or is_sym(b) else a & b
    ),
    "bitwise_or": lambda a, b: (
        sym.sb_or(a, b) if is_sym(a) or is_sym(b) else a | b
    ),
    "bitwise_xor": lambda a, b: a ^ b,
    "invert": lambda a: sym.sb_not(a) if is_sym(a) else (
        not a if isinstance(a, (bool, np.bool_)) else ~a
    ),
    "modf": _modf,
    "divmod": lambda a, b: (_b2("floordiv", a, b), _b2("mod", a, b)),
    "copysign": lambda a, b: (
        sym.s_abs(a) if bool(b >= 0) else -sym.s_abs(a)
    ),
    "heaviside": lambda a, b: (
        np.float64(1.0) if bool(a > 0) else (b if bool(a == 0) else
                                             np.float64(0.0))
    ),
    "clip": lambda a, lo, hi: sym.s_min(sym.s_max(a, lo), hi),
}
_NOUT = {"modf": 2, "divmod": 2}


def elementwise(fn, args, nout=1):
    arrs = [
        a if isinstance(a, np.ndarray) else _boxed(a) for a in args
    ]
    bc = np.broadcast(*arrs) if len(arrs) > 1 else None
    shape = bc.shape if bc is not None else arrs[0].shape
    its = [np.broadcast_to(np.asarray(a), shape) for a in arrs]
    flats = [list(i.flat) for i in its]
    outs = [[] for _ in range(nout)]
    for tup in zip(*flats):
        r = fn(*tup)
        if nout == 1:
            outs[0].append(r)
        else:
            for o, v in zip(outs, r):
                o.append(v)
    if shape == ():
        res = tuple(o[0] for o in outs)
    else:
        res = tuple(pack(o, shape) for o in outs)
    return res[0] if nout == 1 else res


def _boxed(a):
    if isinstance(a, (list, tuple)):
        return to_sym(np_array(a))
    if hasattr(a, "__array__") and not np.isscalar(a) and not is_sym(a):
        return np.asarray(a, dtype=object)
    b = np.empty((), dtype=object)
    b[()] = a
    return b


def elementwise2(op, a, b):
    return elementwise(UF_OP[op], (a, b))


UF_OP = {
    "add": UF["add"],
    "sub": UF["subtract"],
    "mul": UF["multiply"],
    "div": UF["divide"],
    "pow": UF["power"],
    "floordiv": UF["floor_divide"],
    "mod": UF["remainder"],
}


def elementwise_cmp(rel, a, b):
    return elementwise(_cmp(rel), (a, b))


def _store(out, res, where=True):
    if isinstance(out, tuple):
        out = out[0]
    if isinstance(out, np.ndarray):
        if where is True:
            out[...] = res
        else:
            w = np.broadcast_to(np.asarray(where), out.shape)
            r = np.broadcast_to(np.asarray(res, dtype=object), out.shape)
            for idx in np.ndindex(*out.shape):
                if bool(w[idx]):
                    out[idx] = r[idx]
        return out
    return res


def _is_pandas(x):
    return type(x).__module__.startswith("pandas.")


def array_ufunc(ufunc, method, inputs, kw):
    if any(_is_pandas(i) for i in inputs):
        return NotImplemented
    name = ufunc.__name__
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("subok", None)
    if name == "matmul" and method == "__call__":
        return f_dot(*inputs)
    if name not in UF:
        if has_sym(list(inputs)):
            raise Unsupported("ufunc " + name)
        r = getattr(ufunc, method)(*[conc(i) for i in inputs], **kw)
        r = resym(r)
        return _store(out, r, where) if out is not None else r
    fn = UF[name]
    if method == "__call__":
        if where is not True and out is None:
            # unselected entries are unspecified
            w = where
            res = elementwise(
                lambda *a: fn(*a[:-1]) if bool(a[-1]) else np.float64(0.0),
                tuple(inputs) + (w,),
                _NOUT.get(name, 1),
            )
            return res
        if where is not True:
            o = out[0] if isinstance(out, tuple) else out
            w = np.broadcast_to(np.asarray(where), o.shape)
            ins = [
                np.broadcast_to(np.asarray(_boxed(i) if not isinstance(
                    i, np.ndarray) else i), o.shape) for i in inputs
            ]
            for idx in np.ndindex(*o.shape):
                if bool(w[idx]):
                    o[idx] = fn(*[i[idx] for i in ins])
            return o
        res = elementwise(fn, inputs, _NOUT.get(name, 1))
        return _store(out, res) if out is not None else res
    a = inputs[0] if isinstance(inputs[0], np.ndarray) else np_array(inputs[0])
    if method == "reduce":
        axis = kw.get("axis", inputs[1] if len(inputs) > 1 else 0)
        r = reduce_(fn, a, axis, kw.get("initial", _ident(name)),
                    kw.get("keepdims", False), name, where)
        return _store(out, r) if out is not None else r
    if method == "accumulate":
        axis = kw.get("axis", 0) or 0
        r = accumulate(fn, a, axis)
        return _store(out, r) if out is not None else r
    if method == "outer":
        b = inputs[1]
        a = to_sym(a)
        b = to_sym(b)
        r = np.empty(a.shape + b.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            for j in np.ndindex(*b.shape):
                r[i + j] = fn(a[i], b[j])
        return pack(list(r.flat), r.shape)
    if method == "at":
        idx, *rest = inputs[1:]
        idx = index_norm(idx)
        if isinstance(idx, tuple):
            idxs = list(zip(*[np.atleast_1d(i) for i in idx]))
        else:
            idxs = list(np.atleast_1d(idx))
        vals = (
            np.broadcast_to(np.asarray(rest[0], dtype=object), (len(idxs),))
            if rest
            else None
        )
        for k, i in enumerate(idxs):
            a[i] = fn(a[i], vals[k]) if rest else fn(a[i])
        return None
    if method == "reduceat":
        raise Unsupported("reduceat")
    raise Unsupported(method)


def _ident(name):
    return {
        "add": 0,
        "multiply": 1,
        "logical_and": True,
        "logical_or": False,
    }.get(name, None)


def reduce_(fn, a, axis=0, initial=None, keepdims=False, name="", where=True):
    a = np.asarray(a, dtype=object)
    if where is not True:
        w = np.broadcast_to(np.asarray(where), a.shape)
        if initial is None:
            raise Unsupported("masked reduction")
        b = a.copy()
        for i in np.ndindex(*a.shape):
            if not bool(w[i]):
                b[i] = initial
        a = b
    if axis is None:
        vals = list(a.flat)
        r = _fold(fn, vals, initial, name)
        if keepdims:
            return pack([r], (1,) * a.ndim)
        return r
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return reduce_(fn, a, None, initial, keepdims, name)
        raise Unsupported("multi axis reduction")
    moved = np.moveaxis(a, axis, -1)
    shape = moved.shape[:-1]
    out = [
        _fold(fn, list(moved[i]), initial, name) for i in np.ndindex(*shape)
    ]
    if shape == ():
        r = out[0]
        return pack([r], (1,)) if keepdims else r
    r = pack(out, shape)
    if keepdims:
        r = np.expand_dims(r, axis)
    return r


def _fold(fn, vals, initial, name=""):
    if not vals:
        if initial is None:
            raise ValueError(
                "zero-size array to reduction operation %s which has no "
                "identity" % name
            )
        if name in ("add", "multiply"):
            return np.float64(initial)
        return initial
    if not any(is_sym(v) for v in vals) and name in (
        "add", "multiply", "maximum", "minimum",
    ):
        ua = conc(np.array(vals, dtype=object))
        with np.errstate(all="ignore"):
            r = getattr(np, name).reduce(ua)
            if initial is not None:
                r = UF[name](r, initial)
        return r
    if name in ("maximum", "minimum") and initial is None:
        r = sym.s_extreme(vals, name == "maximum")
        if r is not None:
            return r
    acc = vals[0] if initial is None else fn(initial, vals[0])
    for v in vals[1:]:
        acc = fn(acc, v)
    return acc


def accumulate(fn, a, axis=0):
    a = np.asarray(a, dtype=object)
    moved = np.moveaxis(a, axis, -1)
    out = np.empty(moved.shape, dtype=object)
    for i in np.ndindex(*moved.shape[:-1]):
        acc = None
        for j, v in enumerate(moved[i]):
            acc = v if j == 0 else fn(acc, v)
            out[i + (j,)] = acc
    out = np.moveaxis(out, -1, axis)
    return pack(list(out.flat), out.shape)


def mask_bool(m):
    """array of SB -> native bool array (forks)"""
    return np.array([bool(e) for e in m.flat], dtype=bool).reshape(m.shape)


def index_norm(i):
    if isinstance(i, tuple):
        return tuple(index_norm(x) for x in i)
    if isinstance(i, SB):
        return bool(i)
    if isinstance(i, SR):
        return int(operator.index(i))
    if isinstance(i, slice):
        return slice(*[
            operator.index(v) if isinstance(v, SR) else v
            for v in (i.start, i.stop, i.step)
        ])
    if isinstance(i, list) and has_sym(i):
        i = np_array(i)
    if isinstance(i, np.ndarray) and i.dtype == object:
        if i.size == 0:
            return np.zeros(i.shape, dtype=int)
        vals = list(i.flat)
        if all(isinstance(v, (SB, bool, np.bool_)) for v in vals):
            return mask_bool(i)
        out = []
        for v in vals:
            if isinstance(v, (float, np.floating)):
                raise IndexError(
                    "arrays used as indices must be of integer (or boolean)"
                    " type"
                )
            out.append(operator.index(v))
        return np.array(out, dtype=int).reshape(i.shape)
    if isinstance(i, np.ndarray) and i.dtype.kind == "f":
        raise IndexError(
            "arrays used as indices must be of integer (or boolean) type"
        )
    return i


class SymArray(np.ndarray):
    __array_priority__ = 100.0
    fmt = None  # shorter floating point format of the elements

    def __array_finalize__(self, obj):
        self.fmt = getattr(obj, "fmt", None)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        if name in OVERRIDES:
            return OVERRIDES[name](*args, **kwargs)
        if not has_sym(list(args)) and not has_sym(list(kwargs.values())):
            a = [conc(x) for x in args]
            k = {n: conc(x) for n, x in kwargs.items()}
            if not any(_has_symarray(x) for x in a):
                return resym(func(*a, **k))
        return resym(super().__array_function__(func, types_, args, kwargs))

    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self, index_norm(i))
        return r

    def __setitem__(self, i, v):
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            v = to_sym(v)
        elif isinstance(v, float) and not isinstance(v, np.float64):
            v = np.float64(v)
        elif (
            isinstance(v, (int, np.integer))
            and not isinstance(v, bool)
            and self.dtype == object
        ):
            v = np.float64(v)
        elif isinstance(v, np.ndarray) and v.dtype.kind in "iu":
            v = to_sym(v.astype(float))
        i = index_norm(i)
        if self.fmt is not None:
            v = shorten(v, self.fmt)
        if isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype == object:
            v = v.item()
        ks = i if isinstance(i, tuple) else (i,)
        if is_sym(v) and not (
            len(ks) == self.ndim
            and all(isinstance(k, (int, np.integer)) for k in ks)
        ):
            b = np.empty((), dtype=object)
            b[()] = v
            v = b
        np.ndarray.__setitem__(self, i, v)

    def __deepcopy__(self, memo):
        return self.copy()

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError(
            "The truth value of an array with more than one element is "
            "ambiguous. Use a.any() or a.all()"
        )

    def __float__(self):
        return float(self.item())

    def __index__(self):
        return operator.index(self.item())

    def __round__(self, nd=0):
        return f_round(self, nd)

    def __contains__(self, v):
        return bool(sym.sb_or(*[_cmp("==")(e, v) for e in self.flat]))

    def astype(self, dtype, *a, **k):
        dtype = rdt(dtype)
        try:
            kd = np.dtype(dtype).kind
        except TypeError:
            kd = "f"
        if kd == "f":
            vals = [
                np.float64(v)
                if not is_sym(v)
                else sym._as_float(sym.lift(v)) if isinstance(v, SR) else
                np.float64(bool(v))
                for v in self.flat
            ]
            b = np.empty(len(vals), dtype=object)
            for n, v in enumerate(vals):
                b[n] = v
            b = b.reshape(self.shape).view(SymArray)
            fmt = _fmt(dtype)
            return b if fmt is None else shorten(b, fmt)
        if kd in "iu":
            # numpy truncates towards zero
            out = []
            for v in self.flat:
                if isinstance(v, SR):
                    out.append(int(v))
                else:
                    with np.errstate(all="ignore"):
                        out.append(np.array([v]).astype(np.int64)[0])
            return np.array(out, dtype=np.int64).astype(
                np.dtype(dtype)).reshape(self.shape)
        if kd == "b":
            return np.array(
                [bool(v) for v in self.flat], dtype=bool
            ).reshape(self.shape)
        return np.asarray(self).astype(dtype).view(SymArray)

    def min(self, axis=None, out=None, keepdims=False, initial=None, **k):
        return f_reduce("minimum", self, axis, initial, keepdims)

    def max(self, axis=None, out=None, keepdims=False, initial=None, **k):
        return f_reduce("maximum", self, axis, initial, keepdims)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_reduce("add", self, axis, 0, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_reduce("multiply", self, axis, 1, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_mean(self, axis)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return f_var(self, axis, ddof=ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return f_std(self, axis, ddof=ddof)

    def round(self, decimals=0, out=None):
        r = f_round(self, decimals)
        return _store(out, r) if out is not None else r

    def clip(self, min=None, max=None, out=None, **k):
        r = f_clip(self, min, max)
        return _store(out, r) if out is not None else r

    def cumsum(self, axis=None, dtype=None, out=None):
        return f_cumsum(self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return f_cumprod(self, axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return f_any(self, axis)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return f_all(self, axis)

    def argmax(self, axis=None, out=None, **k):
        return f_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return f_argmin(self, axis)

    def argsort(self, axis=-1, kind=None, order=None):
        return f_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = f_sort(self, axis)

    def nonzero(self):
        return f_nonzero(self)

    def searchsorted(self, v, side="left", sorter=None):
        return f_searchsorted(self, v, side, sorter)

    def dot(self, b, out=None):
        return f_dot(self, b)

    def tolist(self):
        return np.ndarray.tolist(self)

    def repeat(self, repeats, axis=None):
        return f_repeat(self, repeats, axis)

    def copy(self, order="C"):
        return np.ndarray.copy(self, order)

    def fill(self, v):
        self[...] = v


def _has_symarray(x):
    if isinstance(x, SymArray):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_symarray(e) for e in x)
    return False


# ------------------------------------------------------------- functions


def _aslist(a):
    return list(np.asarray(a, dtype=object).flat)


def f_reduce(name, a, axis=None, initial=None, keepdims=False, where=True):
    a = np_array_like(a)
    return reduce_(UF[name], a, axis, initial, keepdims, name, where)


def np_array_like(a):
    if isinstance(a, np.ndarray):
        return a
    if hasattr(a, "to_numpy"):
        return to_sym(np.asarray(a.to_numpy(), dtype=object))
    return np_array(a)


_NV = getattr(np, "_NoValue", None)


def _nv(x, d):
    return d if x is _NV or x is None else x


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=0,
          where=True):
    if isinstance(a, types.GeneratorType):
        return f_sum(list(a))
    if _is_pandas(a):
        return a.sum() if axis is None or axis == 0 else a.sum(axis=axis)
    r = f_reduce("add", a, axis, _nv(initial, 0), _nv(keepdims, False),
                 True if where is _NV else where)
    return _store(out, r) if out is not None else r


def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return f_reduce("multiply", a, axis, 1, _nv(keepdims, False))


def f_min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    if _is_pandas(a):
        return a.min() if axis is None else a.min(axis=axis)
    return f_reduce("minimum", a, axis, _nv(initial, None),
                    _nv(keepdims, False))


def f_max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    if _is_pandas(a):
        return a.max() if axis is None else a.max(axis=axis)
    return f_reduce("maximum", a, axis, _nv(initial, None),
                    _nv(keepdims, False))


def _nanred(name, fn, empty):
    def f(a, axis=None, **k):
        a = np_array_like(a)
        if axis is None:
            vals = [v for v in _aslist(a) if is_sym(v) or v == v]
            if not vals:
                return np.float64(empty)
            return _fold(fn, vals, None, name)
        moved = np.moveaxis(np.asarray(a, dtype=object), axis, -1)
        out = [
            f(pack(list(moved[i]), (moved.shape[-1],)))
            for i in np.ndindex(*moved.shape[:-1])
        ]
        return pack(out, moved.shape[:-1])

    return f


f_nanmin = _nanred("minimum", sym.s_min, "nan")
f_nanmax = _nanred("maximum", sym.s_max, "nan")
f_nansum = _nanred("add", UF["add"], 0.0)


def f_nanmean(a, axis=None, **k):
    a = np_array_like(a)
    if axis is None:
        vals = [v for v in _aslist(a) if is_sym(v) or v == v]
        if not vals:
            return np.float64("nan")
        return _b2("div", _fold(UF["add"], vals, 0, "add"), len(vals))
    moved = np.moveaxis(np.asarray(a, dtype=object), axis, -1)
    out = [
        f_nanmean(pack(list(moved[i]), (moved.shape[-1],)))
        for i in np.ndindex(*moved.shape[:-1])
    ]
    return pack(out, moved.shape[:-1])


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if _is_pandas(a):
        return a.mean()
    a = np_array_like(a)
    n = a.size if axis is None else a.shape[axis]
    s = f_sum(a, axis)
    if n == 0:
        return np.float64("nan")
    return s / np.float64(n) if isinstance(s, np.ndarray) else _b2(
        "div", s, n
    )


def f_average(a, axis=None, weights=None, returned=False, **k):
    a = np_array_like(a)
    if weights is None:
        return f_mean(a, axis)
    w = np_array_like(weights)
    if axis is None:
        num_ = f_sum(UFP["multiply"](a, w))
        den = f_sum(w)
        if not is_sym(den) and den == 0:
            raise ZeroDivisionError(
                "Weights sum to zero, can't be normalized"
            )
        return _b2("div", num_, den)
    raise Unsupported("average with axis")


def f_var(a, axis=None, dtype=None, out=None, ddof=0, **k):
    a = np_array_like(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("var axis")
    n = a.size
    if n == 0:
        return np.float64("nan")
    m = f_mean(a)
    d = [_b2("sub", v, m) for v in _aslist(a)]
    return _b2(
        "div",
        _fold(UF["add"], [_b2("mul", x, x) for x in d], 0, "add"),
        n - ddof,
    )


def f_std(a, axis=None, dtype=None, out=None, ddof=0, **k):
    return UF["sqrt"](f_var(a, axis, ddof=ddof))


def f_round(a, decimals=0, out=None):
    d = int(decimals)
    if _is_pandas(a):
        if not has_sym(a.to_numpy()):
            return a.round(d)
        return type(a)(
            f_round(to_sym(a.to_numpy()), d), index=a.index
        )
    if not isinstance(a, (np.ndarray, list, tuple)):
        if is_sym(a):
            return sym.s_round(a, d)
        return np.round(a, d)
    a = np_array_like(a)

    def one(v):
        if isinstance(v, SR):
            return sym.s_round(v, d)
        return np.round(v, d)

    if a.dtype != object:
        return resym(np.round(a, d))
    r = elementwise(one, (a,))
    return _store(out, r) if out is not None else r


def f_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    if a_min is None:
        a_min = min
    if a_max is None:
        a_max = max
    r = np_array_like(a) if not is_sym(a) else a
    if a_min is not None:
        r = elementwise(sym.s_max, (r, a_min))
    if a_max is not None:
        r = elementwise(sym.s_min, (r, a_max))
    return _store(out, r) if out is not None else r


def f_cumsum(a, axis=None, dtype=None, out=None):
    if _is_pandas(a):
        return a.cumsum()
    a = np_array_like(a)
    if a.dtype != object:
        return resym(np.cumsum(a, axis=axis))
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if a.size == 0:
        return a.copy()
    return accumulate(UF["add"], a, axis)


def f_cumprod(a, axis=None, dtype=None, out=None):
    a = np_array_like(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if a.size == 0:
        return a.copy()
    return accumulate(UF["multiply"], a, axis)


def f_any(a, axis=None, out=None, keepdims=False, **k):
    a = np_array_like(a)
    if a.dtype != object:
        return np.any(np.asarray(a), axis=axis)
    if axis is not None and a.ndim > 1:
        return reduce_(UF["logical_or"], a, axis, False, False, "logical_or")
    return sym.sb_or(*[_truth(v) for v in a.flat])


def f_all(a, axis=None, out=None, keepdims=False, **k):
    a = np_array_like(a)
    if a.dtype != object:
        return np.all(np.asarray(a), axis=axis)
    if axis is not None and a.ndim > 1:
        return reduce_(UF["logical_and"], a, axis, True, False, "logical_and")
    return sym.sb_and(*[_truth(v) for v in a.flat])


def _arg(better):
    def f(a, axis=None, out=None, **k):
        a = np_array_like(a)
        if a.dtype != object:
            g = np.argmax if better == ">" else np.argmin
            return g(np.asarray(a), axis=axis)
        if axis is not None and a.ndim > 1:
            moved = np.moveaxis(np.asarray(a), axis, -1)
            out_ = [
                f(pack(list(moved[i]), (moved.shape[-1],)))
                for i in np.ndindex(*moved.shape[:-1])
            ]
            return np.array(out_).reshape(moved.shape[:-1])
        vals = _aslist(a)
        if not vals:
            raise ValueError("attempt to get arg of an empty sequence")
        best = 0
        for i in range(1, len(vals)):
            if not is_sym(vals[best]) and vals[best] != vals[best]:
                break
            if not is_sym(vals[i]) and vals[i] != vals[i]:
                best = i
                break
            if bool(_cmp(better)(vals[i], vals[best])):
                best = i
        return np.int64(best)

    return f


f_argmax = _arg(">")
f_argmin = _arg("<")


class _K:
    """sort key: nan last, forking comparisons"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        a, b = self.v, o.v
        if not is_sym(a) and a != a:
            return False
        if not is_sym(b) and b != b:
            return True
        return bool(_cmp("<")(a, b))


def _sorted_idx(vals):
    return sorted(range(len(vals)), key=lambda i: _K(vals[i]))


def f_argsort(a, axis=-1, kind=None, order=None):
    a = np_array_like(a)
    if a.dtype != object:
        return np.argsort(np.asarray(a), axis=axis, kind=kind)
    if a.ndim > 1:
        moved = np.moveaxis(np.asarray(a), axis, -1)
        out = np.empty(moved.shape, dtype=int)
        for i in np.ndindex(*moved.shape[:-1]):
            out[i] = _sorted_idx(list(moved[i]))
        return np.moveaxis(out, -1, axis)
    return np.array(_sorted_idx(list(a.flat)), dtype=np.int64)


def f_sort(a, axis=-1, kind=None, order=None):
    a = np_array_like(a)
    if a.dtype != object:
        return resym(np.sort(np.asarray(a), axis=axis))
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if a.ndim > 1:
        idx = f_argsort(a, axis)
        return np.take_along_axis(np.asarray(a), idx, axis).view(SymArray)
    v = list(a.flat)
    return pack([v[i] for i in _sorted_idx(v)], a.shape)


def f_lexsort(keys, axis=-1):
    ks = [_aslist(k) for k in keys]
    n = len(ks[0])
    idx = list(range(n))
    for k in ks:
        idx = sorted(idx, key=lambda i: _K(k[i]))
    return np.array(idx, dtype=np.int64)


def f_unique(ar, return_index=False, return_inverse=False,
             return_counts=False, axis=None, **k):
    a = np_array_like(ar)
    if a.dtype != object:
        return resym(np.unique(np.asarray(a), return_index, return_inverse,
                               return_counts, axis))
    if axis is not None and a.ndim > 1:
        raise Unsupported("unique axis")
    v = _aslist(a)
    idx = _sorted_idx(v)
    groups = []
    inv = [0] * len(v)
    for i in idx:
        if groups and bool(_cmp("==")(v[groups[-1][0]], v[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
        inv[i] = len(groups) - 1
    vals = [v[min(g)] for g in groups]
    res = pack(vals, (len(vals),)) if vals else a.reshape(-1)[:0]
    out = [res]
    if return_index:
        out.append(np.array([min(g) for g in groups], dtype=np.int64))
    if return_inverse:
        out.append(np.array(inv, dtype=np.int64))
    if return_counts:
        out.append(np.array([len(g) for g in groups], dtype=np.int64))
    return out[0] if len(out) == 1 else tuple(out)


def f_nonzero(a):
    a = np_array_like(a)
    if a.dtype != object:
        return np.nonzero(np.asarray(a))
    b = np.array([bool(_truth(v)) for v in a.flat], dtype=bool).reshape(
        a.shape
    )
    return np.nonzero(b)


def f_where(cond, x=_NV, y=_NV):
    if x is _NV and y is _NV:
        return f_nonzero(cond)
    if is_sym(cond) or isinstance(cond, (bool, np.bool_)):
        if not isinstance(x, (np.ndarray, list, tuple)) and not isinstance(
            y, (np.ndarray, list, tuple)
        ):
            return x if bool(_truth(cond)) else y
    if _is_pandas(cond):
        cond = cond.to_numpy()
    return elementwise(
        lambda c, a, b: a if bool(_truth(c)) else b, (cond, x, y)
    )


def f_select(condlist, choicelist, default=0):
    r = default
    for c, v in zip(reversed(list(condlist)), reversed(list(choicelist))):
        r = f_where(c, v, r)
    return r


def f_searchsorted(a, v, side="left", sorter=None):
    a = _aslist(np_array_like(a))
    if sorter is not None:
        a = [a[i] for i in sorter]

    def one(x):
        n = 0
        for e in a:
            if side == "left":
                c = _cmp("<")(e, x)
            else:
                c = _cmp("<=")(e, x)
            if bool(c):
                n += 1
            else:
                break
        return n

    if isinstance(v, (np.ndarray, list, tuple)) or _is_pandas(v):
        v = np_array_like(v)
        return np.array([one(x) for x in v.flat], dtype=np.int64).reshape(
            v.shape
        )
    return np.int64(one(v))


def f_digitize(x, bins, right=False):
    bl = _aslist(np_array_like(bins))
    if len(bl) == 0:
        inc = True
    else:
        inc = all(bool(_cmp("<=")(bl[i], bl[i + 1])) for i in
                  range(len(bl) - 1))
        if not inc:
            dec = all(bool(_cmp(">=")(bl[i], bl[i + 1])) for i in
                      range(len(bl) - 1))
            if not dec:
                raise ValueError(
                    "bins must be monotonically increasing or decreasing"
                )
    if inc:
        return f_searchsorted(
            np_array_like(bins), x, "left" if right else "right"
        )
    r = f_searchsorted(
        pack(list(reversed(bl)), (len(bl),)), x, "left" if right else "right"
    )
    return len(bl) - r


def f_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xs = _aslist(np_array_like(xp))
    ys = _aslist(np_array_like(fp))
    lf = ys[0] if left is None else left
    rt = ys[-1] if right is None else right

    def one(v):
        if bool(_cmp("<")(v, xs[0])):
            return lf
        if bool(_cmp(">")(v, xs[-1])):
            return rt
        for i in range(len(xs) - 1):
            if bool(_cmp("<")(v, xs[i + 1])):
                return _b2(
                    "add",
                    ys[i],
                    _b2(
                        "div",
                        _b2(
                            "mul",
                            _b2("sub", ys[i + 1], ys[i]),
                            _b2("sub", v, xs[i]),
                        ),
                        _b2("sub", xs[i + 1], xs[i]),
                    ),
                )
        return ys[-1]

    if isinstance(x, (np.ndarray, list, tuple)):
        return elementwise(one, (np_array_like(x),))
    return one(x)


def f_diff(a, n=1, axis=-1, prepend=_NV, append=_NV):
    a = np_array_like(a)
    if n != 1:
        for _ in range(n):
            a = f_diff(a, 1, axis)
        return a
    if prepend is not _NV or append is not _NV:
        parts = []
        if prepend is not _NV:
            parts.append(np.atleast_1d(np_array_like([prepend]) if not
                                       isinstance(prepend, (np.ndarray, list))
                                       else np_array_like(prepend)))
        parts.append(a)
        if append is not _NV:
            parts.append(np.atleast_1d(np_array_like([append]) if not
                                       isinstance(append, (np.ndarray, list))
                                       else np_array_like(append)))
        a = f_concatenate(parts)
    if a.dtype != object:
        return resym(np.diff(np.asarray(a), 1, axis))
    m = np.moveaxis(a, axis, -1)
    r = UFP["subtract"](m[..., 1:], m[..., :-1])
    return np.moveaxis(r, -1, axis)


def f_ediff1d(a, *k):
    return f_diff(np_array_like(a).reshape(-1))


def f_dot(a, b, out=None):
    a = np_array_like(a)
    b = np_array_like(b)
    if a.ndim == 0 or b.ndim == 0:
        return UFP["multiply"](a, b)
    if a.ndim == 1 and b.ndim == 1:
        if len(a) != len(b):
            raise ValueError("shapes not aligned")
        return f_sum(UFP["multiply"](a, b))
    if a.ndim == 2 and b.ndim == 1:
        return pack([f_dot(r, b) for r in a], (a.shape[0],))
    if a.ndim == 1 and b.ndim == 2:
        return pack([f_dot(a, c) for c in b.T], (b.shape[1],))
    if a.ndim == 2 and b.ndim == 2:
        return pack(
            [f_dot(r, c) for r in a for c in b.T], (a.shape[0], b.shape[1])
        )
    raise Unsupported("dot")


def f_einsum(spec, *ops, **kw):
    ops = [np_array_like(a) for a in ops]
    ins, _, res = spec.replace(" ", "").partition("->")
    ins = ins.split(",")
    if "." in spec or len(ins) != len(ops):
        raise Unsupported("einsum")
    if "->" not in spec:
        res = "".join(sorted(c for c in set("".join(ins))
                             if "".join(ins).count(c) == 1))
    size = {c: n for t, a in zip(ins, ops) for c, n in zip(t, a.shape)}
    run = [c for c in size if c not in res]
    vals = []
    for at in np.ndindex(*[size[c] for c in res]):
        tot = 0.0
        for k in np.ndindex(*[size[c] for c in run]):
            at_ = dict(zip(res, at), **dict(zip(run, k)))
            v = 1.0
            for t, a in zip(ins, ops):
                v = v * a[tuple(at_[c] for c in t)]
            tot = tot + v
        vals.append(tot)
    return pack(vals, tuple(size[c] for c in res)) if res else vals[0]


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def one(x, y):
        if is_sym(x) or is_sym(y):
            if not sym.finite(x) or not sym.finite(y):
                return False
            d = sym.s_abs(_b2("sub", x, y))
            return _cmp("<=")(d, _b2("add", atol, _b2("mul", rtol,
                                                      sym.s_abs(y))))
        return bool(np.isclose(x, y, rtol, atol, equal_nan))

    return elementwise(one, (a, b))


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(f_all(np_array_like(f_isclose(a, b, rtol, atol, equal_nan))))


def f_array_equal(a, b, equal_nan=False):
    a, b = np_array_like(a), np_array_like(b)
    if a.shape != b.shape:
        return False
    return bool(f_all(elementwise(_cmp("=="), (a, b))))


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = np.finfo(float).max

    def one(v):
        if is_sym(v):
            return v
        if v != v:
            return np.float64(nan)
        if v == np.inf:
            return np.float64(big if posinf is None else posinf)
        if v == -np.inf:
            return np.float64(-big if neginf is None else neginf)
        return v

    if isinstance(x, (np.ndarray, list, tuple)):
        r = elementwise(one, (np_array_like(x),))
        if not copy and isinstance(x, np.ndarray):
            x[...] = r
            return x
        return r
    return one(x)


def f_trim_zeros(filt, trim="fb"):
    vals = list(filt)
    lo, hi = 0, len(vals)
    t = trim.upper()
    if "F" in t:
        while lo < hi and not bool(_truth(vals[lo])):
            lo += 1
    if "B" in t:
        while hi > lo and not bool(_truth(vals[hi - 1])):
            hi -= 1
    return filt[lo:hi]


def f_count_nonzero(a, axis=None, **k):
    a = np_array_like(a)
    if a.dtype != object:
        return np.count_nonzero(np.asarray(a), axis=axis)
    return sum(1 for v in a.flat if bool(_truth(v)))


def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
               axis=0):
    if isinstance(num, SR):
        num = int(operator.index(num))
    num = int(operator.index(num))
    if num < 0:
        raise ValueError("Number of samples, %s, must be non-negative." % num)
    if not is_sym(start) and not is_sym(stop) and not has_sym(
        np.asarray(start)
    ):
        r = np.linspace(conc(start), conc(stop), num, endpoint)
        r = resym(r)
        step = None
        if retstep:
            step = (stop - start) / max(1, num - 1 if endpoint else num)
    else:
        div = (num - 1) if endpoint else num
        step = _b2("div", _b2("sub", stop, start), div) if div > 0 else \
            np.float64("nan")
        vals = []
        for i in range(num):
            if endpoint and i == num - 1 and num > 1:
                vals.append(stop)
            else:
                vals.append(
                    _b2("add", start, _b2("mul", step, i)) if i else start
                )
        r = pack(
            [np.float64(v) if not is_sym(v) else v for v in vals], (num,)
        )
    if dtype is not None:
        r = r.astype(dtype)
    return (r, step) if retstep else r


def f_arange(*args, dtype=None, **kw):
    if not has_sym(list(args)):
        return resym(np.arange(*args, dtype=rdt(dtype), **kw))
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args[:3]
    n = sym.s_ceil(_b2("div", _b2("sub", stop, start), step))
    n = sym.enum_int(n) if isinstance(n, SR) else int(n)
    n = max(n, 0)
    vals = [_b2("add", start, _b2("mul", step, i)) for i in range(n)]
    if not vals:
        return np_empty(0)
    return pack(vals, (n,))


def f_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None,
               axis=0):
    y = f_linspace(start, stop, num, endpoint)
    return elementwise(lambda v: _b2("pow", np.float64(base), v), (y,))


def f_geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    if not is_sym(start) and not is_sym(stop):
        return resym(np.geomspace(start, stop, num, endpoint))
    ls = UF["log10"](start)
    le = UF["log10"](stop)
    return f_logspace(ls, le, num, endpoint)


def rdt(dtype):
    """dtype argument as the real numpy understands it"""
    if isinstance(dtype, type) and issubclass(type(dtype), type):
        if dtype.__name__ == "float" and dtype is not float:
            return float
    return dtype


def _kind(dtype):
    if dtype is None:
        return "f"
    dtype = rdt(dtype)
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return "f"


def _fmt(dtype):
    """name of a floating point format shorter than the usual one"""
    try:
        d = np.dtype(rdt(dtype))
    except TypeError:
        return None
    return {4: "f32", 2: "f16"}.get(d.itemsize) if d.kind == "f" else None


def shorten(v, fmt):
    if isinstance(v, np.ndarray):
        b = np.empty(v.shape, dtype=object).view(SymArray)
        for i in np.ndindex(*v.shape):
            np.ndarray.__setitem__(b, i, shorten(v[i], fmt))
        b.fmt = fmt
        return b
    if isinstance(v, (list, tuple)):
        return [shorten(x, fmt) for x in v]
    if isinstance(v, SR) or isinstance(v, (int, float, np.number)):
        return sym.s_short(v, fmt)
    return v


def _full(shape, v, dtype, order="C", like=None):
    if dtype is not None and _fmt(dtype):
        return shorten(_full(shape, v, float), _fmt(dtype))
    if isinstance(shape, SR):
        shape = int(operator.index(shape))
    if isinstance(shape, (tuple, list)):
        shape = tuple(
            int(operator.index(s)) if isinstance(s, SR) else s for s in shape
        )
    if _kind(dtype) == "f":
        b = np.empty(shape, dtype=object)
        if is_sym(v):
            for i in np.ndindex(*b.shape):
                b[i] = v
        else:
            b[...] = np.float64(v)
            bf = b.reshape(-1)
            for i in range(bf.size):
                bf[i] = np.float64(v)
        return b.view(SymArray)
    if _kind(dtype) in "iu" and is_sym(v):
        v = int(v)
    if _kind(dtype) == "O":
        b = np.empty(shape, dtype=object)
        for i in np.ndindex(*b.shape):
            b[i] = v
        return b.view(SymArray)
    return np.full(shape, v, dtype=rdt(dtype))


def np_empty(shape, dtype=None, order="C", **k):
    return _full(shape, 0.0 if _kind(dtype) == "f" else
                 (None if _kind(dtype) == "O" else 0), dtype)


def np_zeros(shape, dtype=None, order="C", **k):
    return _full(shape, 0, dtype)


def np_ones(shape, dtype=None, order="C", **k):
    return _full(shape, 1, dtype)


def np_full(shape, fill_value, dtype=None, order="C", **k):
    if isinstance(fill_value, (np.ndarray, list, tuple)):
        b = _full(shape, 0.0, float)
        b[...] = np_array(fill_value)
        return b
    if dtype is None:
        if isinstance(fill_value, (bool, np.bool_)):
            dtype = bool
        elif isinstance(fill_value, (int, np.integer)):
            dtype = int
        elif isinstance(fill_value, SR) and fill_value.isint:
            dtype = float
        else:
            dtype = float
    return _full(shape, fill_value, dtype)


def _like(fill):
    def f(a, dtype=None, order="K", subok=True, shape=None, **k):
        if _is_pandas(a):
            a = a.to_numpy()
        a = np_array_like(a)
        if dtype is None:
            dtype = float if a.dtype == object else a.dtype
        return _full(a.shape if shape is None else shape, fill, dtype)

    return f


def np_full_like(a, fill_value, dtype=None, **k):
    a = np_array_like(a)
    if dtype is None:
        dtype = float if a.dtype == object else a.dtype
    return np_full(a.shape, fill_value, dtype)


def np_array(obj, dtype=None, copy=True, order="K", subok=False, ndmin=0,
             like=None):
    dtype = rdt(dtype)
    if dtype is not None and _fmt(dtype):
        return shorten(np_array(obj, float, ndmin=ndmin), _fmt(dtype))
    if isinstance(obj, (types.GeneratorType, map, zip, filter)):
        return np.array(obj)
    if _is_pandas(obj):
        a = obj.to_numpy()
        obj = a
    if isinstance(obj, np.ndarray):
        a = obj
        if a.dtype == object or a.dtype.kind == "f":
            r = to_sym(a)
            if not _clean(r):
                r = r.copy() if copy else r
            elif dtype is not None:
                r = r.astype(dtype)
            elif copy:
                r = r.copy()
        elif dtype is not None and _kind(dtype) == "f":
            r = to_sym(a.astype(float))
        else:
            r = np.array(a, dtype=dtype)
    else:
        arr = np.array(obj, dtype=object) if _deep_sym(obj) else None
        if arr is None:
            r = np.array(_plain(obj), dtype=dtype)
            r = resym(r) if r.dtype.kind == "f" else r
        else:
            flat = list(arr.flat)
            isi = all(
                isinstance(v, (int, np.integer)) and not isinstance(v, bool)
                or (isinstance(v, SR) and v.isint)
                for v in flat
            )
            isb = all(isinstance(v, (SB, bool, np.bool_)) for v in flat)
            b = np.empty(len(flat), dtype=object)
            for i, v in enumerate(flat):
                if isi or isb or is_sym(v):
                    b[i] = v
                elif isinstance(
                    v, (int, float, np.integer, np.floating, np.bool_)
                ):
                    b[i] = np.float64(v)
                else:
                    b[i] = v
            r = b.reshape(arr.shape).view(SymArray)
            if dtype is not None and _clean(r):
                r = r.astype(dtype)
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _clean(a):
    """only numbers inside"""
    return all(
        is_sym(v) or isinstance(v, (int, float, np.number, np.bool_))
        for v in a.flat
    )


def _deep_sym(o):
    if is_sym(o):
        return True
    if isinstance(o, np.ndarray):
        return o.dtype == object and any(is_sym(v) for v in o.flat)
    if isinstance(o, (list, tuple)):
        return any(_deep_sym(v) for v in o)
    if _is_pandas(o):
        return _deep_sym(o.to_numpy())
    return False


def _plain(o):
    if isinstance(o, np.ndarray):
        return conc(o)
    if isinstance(o, (list, tuple)):
        return [_plain(v) for v in o]
    return o


def np_asarray(a, dtype=None, order=None, **k):
    dtype = rdt(dtype)
    if dtype is not None and _fmt(dtype):
        return np_array(a, dtype)
    if isinstance(a, np.ndarray) and (
        dtype is None
        or (a.dtype == object and _kind(dtype) == "f")
        or a.dtype == dtype
    ):
        if a.dtype.kind == "f":
            return to_sym(a)
        if a.dtype == object:
            if dtype is not None and _kind(dtype) == "f" and any(
                isinstance(v, (int, np.integer)) for v in a.flat
            ):
                return to_sym(a).astype(float)
            return to_sym(a)
        return a
    return np_array(a, dtype=dtype)


def f_atleast_1d(*arys):
    res = []
    for a in arys:
        a = np_array_like(a) if not is_sym(a) else pack([a], (1,))
        res.append(a.reshape(1) if a.ndim == 0 else a)
    return res[0] if len(res) == 1 else res


def f_atleast_2d(*arys):
    res = []
    for a in arys:
        a = f_atleast_1d(a)
        res.append(a.reshape(1, -1) if a.ndim == 1 else a)
    return res[0] if len(res) == 1 else res


def _arrs(seq):
    out = [f_atleast_1d(a) for a in seq]
    if any(a.dtype == object for a in out):
        fl = any(
            isinstance(v, (float, np.floating))
            or (isinstance(v, SR) and not v.isint)
            for a in out
            if a.dtype == object
            for v in a.flat
        ) or any(a.dtype == object and a.size == 0 for a in out)
        out = [
            to_sym(a.astype(float))
            if a.dtype != object and fl and a.dtype.kind in "iub"
            else to_sym(a)
            for a in out
        ]
    return out


def f_concatenate(seq, axis=0, out=None, dtype=None, **k):
    seq = list(seq)
    if axis is None:
        seq = [f_atleast_1d(a).reshape(-1) for a in seq]
        axis = 0
    return resym(np.concatenate([np.asarray(a) for a in _arrs(seq)], axis))


def f_hstack(tup, **k):
    a = _arrs(list(tup))
    if a and a[0].ndim == 1:
        return resym(np.concatenate([np.asarray(x) for x in a], 0))
    return resym(np.concatenate([np.asarray(x) for x in a], 1))


def f_vstack(tup, **k):
    a = [f_atleast_2d(x) for x in _arrs(list(tup))]
    return resym(np.concatenate([np.asarray(x) for x in a], 0))


def f_column_stack(tup):
    a = [x.reshape(-1, 1) if x.ndim == 1 else x for x in _arrs(list(tup))]
    return resym(np.concatenate([np.asarray(x) for x in a], 1))


def f_stack(arrays, axis=0, **k):
    a = _arrs(list(arrays))
    return resym(np.stack([np.asarray(x) for x in a], axis))


def f_append(arr, values, axis=None):
    if axis is None:
        return f_concatenate(
            [f_atleast_1d(arr).reshape(-1), f_atleast_1d(values).reshape(-1)]
        )
    return f_concatenate([arr, values], axis)


def f_insert(arr, obj, values, axis=None):
    a = to_sym(np_array_like(arr))
    return resym(np.insert(np.asarray(a), obj, np.asarray(
        values if not is_sym(values) else _boxed(values), dtype=object), axis))


def f_repeat(a, repeats, axis=None):
    if isinstance(repeats, np.ndarray):
        repeats = index_norm(repeats) if repeats.dtype == object else repeats
        if isinstance(repeats, np.ndarray) and repeats.dtype.kind == "f":
            raise TypeError("Cannot cast array data to int64")
    elif isinstance(repeats, SR):
        repeats = operator.index(repeats)
    elif isinstance(repeats, (list, tuple)):
        repeats = [operator.index(r) for r in repeats]
    if is_sym(a):
        a = pack([a], (1,))
    return resym(np.repeat(np.asarray(np_array_like(a)), repeats, axis))


def f_tile(a, reps):
    if is_sym(a):
        a = pack([a], (1,))
    return resym(np.tile(np.asarray(np_array_like(a)), reps))


def f_take(a, indices, axis=None, **k):
    return resym(np.take(np.asarray(np_array_like(a)),
                         index_norm(np_array_like(indices)), axis, **k))


def f_compress(c, a, axis=None):
    c = index_norm(np_array_like(c))
    return resym(np.compress(c, np.asarray(np_array_like(a)), axis))


def f_bincount(x, weights=None, minlength=0):
    xs = [int(operator.index(v)) for v in np_array_like(x).flat]
    n = max([v + 1 for v in xs] + [int(minlength)])
    if weights is None:
        return np.bincount(xs, minlength=minlength)
    acc = [np.float64(0.0)] * n
    for v, w in zip(xs, _aslist(np_array_like(weights))):
        acc[v] = _b2("add", acc[v], w)
    return pack(acc, (n,))


def _hist_edges(v, bins, rng):
    if isinstance(bins, (np.ndarray, list, tuple)):
        return _aslist(np_array_like(bins))
    n = int(operator.index(bins))
    if rng is None:
        lo, hi = f_min(v), f_max(v)
        if bool(lo == hi):
            lo, hi = _b2("sub", lo, 0.5), _b2("add", hi, 0.5)
    else:
        lo, hi = rng
    return _aslist(f_linspace(lo, hi, n + 1))


def _hist_bin(v, ed):
    """bin index or None"""
    n = len(ed) - 1
    if not is_sym(v) and v != v:
        return None
    if bool(_cmp("<")(v, ed[0])) or bool(_cmp(">")(v, ed[-1])):
        return None
    for i in range(n):
        if bool(_cmp("<")(v, ed[i + 1])):
            return i
    return n - 1


def f_histogram(a, bins=10, range=None, weights=None, density=None, **k):
    a = np_array_like(a).reshape(-1)
    ed = _hist_edges(a, bins, range)
    acc = [0] * (len(ed) - 1)
    ws = _aslist(weights) if weights is not None else None
    for j, v in enumerate(a):
        i = _hist_bin(v, ed)
        if i is not None:
            acc[i] = acc[i] + (1 if ws is None else ws[j])
    h = pack([np.float64(x) if not is_sym(x) and ws is not None else x
              for x in acc], (len(acc),))
    e = pack(ed, (len(ed),))
    if density:
        h = h / f_diff(e) / f_sum(h)
    return h, e


def f_histogram2d(x, y, bins=10, range=None, normed=None, weights=None,
                  density=None, **k):
    if normed is not None:
        if density is not None:
            raise TypeError("Cannot specify both 'normed' and 'density'")
        density = normed
    x = np_array_like(x).reshape(-1)
    y = np_array_like(y).reshape(-1)
    if len(x) != len(y):
        raise ValueError("x and y must have the same length.")
    if isinstance(bins, (list, tuple)) and len(bins) == 2:
        bx, by = bins
    elif isinstance(bins, np.ndarray) and bins.ndim == 2:
        bx, by = bins
    else:
        bx = by = bins
    rx, ry = (None, None) if range is None else range
    ex = _hist_edges(x, bx, rx)
    ey = _hist_edges(y, by, ry)
    h = np.zeros((len(ex) - 1, len(ey) - 1), dtype=object)
    h[...] = 0.0
    ws = _aslist(weights) if weights is not None else None
    for j, (a, b) in enumerate(zip(x, y)):
        i = _hist_bin(a, ex)
        k_ = _hist_bin(b, ey)
        if i is not None and k_ is not None:
            h[i, k_] = h[i, k_] + (1.0 if ws is None else ws[j])
    hh = pack([np.float64(v) if not is_sym(v) else v for v in h.flat],
              h.shape)
    exa, eya = pack(ex, (len(ex),)), pack(ey, (len(ey),))
    if density:
        s = f_sum(hh)
        area = UFP["multiply"].outer(f_diff(exa), f_diff(eya))
        hh = hh / s / area
    return hh, exa, eya


def f_median(a, axis=None, **k):
    v = f_sort(np_array_like(a).reshape(-1))
    n = len(v)
    if n % 2:
        return v[n // 2]
    return _b2("div", _b2("add", v[n // 2 - 1], v[n // 2]), 2)


def f_isin(a, test, **k):
    tv = _aslist(np_array_like(test))
    return elementwise(
        lambda v: sym.sb_or(*[_cmp("==")(v, t) for t in tv]),
        (np_array_like(a),),
    )


def f_modf(x, *a, **k):
    if isinstance(x, (np.ndarray, list, tuple)):
        return elementwise(_modf, (np_array_like(x),), 2)
    return _modf(x)


def f_isscalar(x):
    return is_sym(x) or np.isscalar(x)


def f_vectorize(pyfunc, *a, **k):
    def g(*args):
        return elementwise(pyfunc, args)

    return g


def f_apply_along_axis(func, axis, arr, *args, **kw):
    m = np.moveaxis(np.asarray(np_array_like(arr)), axis, -1)
    outs = [func(m[i].view(SymArray), *args, **kw)
            for i in np.ndindex(*m.shape[:-1])]
    return np_array(outs)


def f_trapz(y, x=None, dx=1.0, axis=-1):
    y = np_array_like(y)
    d = f_diff(np_array_like(x)) if x is not None else dx
    return f_sum(d * (y[1:] + y[:-1]) / 2.0)


def f_max_min_py(name):
    fn = sym.s_max if name == "max" else sym.s_min
    return fn


def f_round_(a, decimals=0, out=None):
    return f_round(a, decimals, out)


def f_ptp(a, axis=None, **k):
    return np_array_like(a).view(SymArray).ptp(axis) if has_sym(a) else \
        np.ptp(conc(a), axis)


def f_copy(a, **k):
    return np_array(a)


def f_flip(m, axis=None):
    m = np_array_like(m)
    return resym(np.flip(np.asarray(m), axis))


def f_roll(a, shift, axis=None):
    return resym(np.roll(np.asarray(np_array_like(a)), shift, axis))


def f_extract(c, a):
    return f_compress(np_array_like(c).reshape(-1),
                      np_array_like(a).reshape(-1))


def f_flatnonzero(a):
    return f_nonzero(np_array_like(a).reshape(-1))[0]


def f_argwhere(a):
    return np.transpose(np.array(f_nonzero(a)))


def f_piecewise(x, condlist, funclist, *args, **kw):
    r = np_zeros(np.shape(x))
    for i, c in enumerate(condlist):
        f = funclist[i]
        m = index_norm(np_array_like(c))
        r[m] = f(x[m]) if callable(f) else f
    return r


def f_polyval(p, x):
    r = np.float64(0.0)
    for c in _aslist(np_array_like(p)):
        r = r * x + c
    return r


def f_outer(a, b, out=None):
    return UFP["multiply"].outer(np_array_like(a).reshape(-1),
                                 np_array_like(b).reshape(-1))


def f_broadcast_to(a, shape, subok=False):
    return np.broadcast_to(np.asarray(np_array_like(a)), shape).view(SymArray)


def f_delete(arr, obj, axis=None):
    return resym(np.delete(np.asarray(np_array_like(arr)),
                           index_norm(obj) if isinstance(obj, np.ndarray)
                           else obj, axis))


def f_array_split(a, n, axis=0):
    return [resym(x) for x in np.array_split(np.asarray(np_array_like(a)), n,
                                             axis)]


def f_quantile(a, q, **k):
    v = f_sort(np_array_like(a).reshape(-1))
    n = len(v)

    def one(qq):
        pos = float(qq) * (n - 1)
        i = int(math.floor(pos))
        fr = pos - i
        if fr == 0:
            return v[i]
        return v[i] + (v[i + 1] - v[i]) * fr

    if isinstance(q, (list, tuple, np.ndarray)):
        return pack([one(x) for x in q], (len(q),))
    return one(q)


def f_percentile(a, q, **k):
    return f_quantile(a, np.asarray(q, dtype=float) / 100 if isinstance(
        q, (list, tuple, np.ndarray)) else q / 100)


OVERRIDES = {
    "array": np_array,
    "asarray": np_asarray,
    "asanyarray": np_asarray,
    "ascontiguousarray": np_asarray,
    "asfarray": lambda a, dtype=None: np_asarray(a, dtype=float),
    "fromiter": lambda it, dtype=None, count=-1, **k: np_array(
        list(it), dtype=dtype
    ),
    "copy": f_copy,
    "atleast_1d": f_atleast_1d,
    "atleast_2d": f_atleast_2d,
    "empty": np_empty,
    "zeros": np_zeros,
    "ones": np_ones,
    "full": np_full,
    "empty_like": _like(0),
    "zeros_like": _like(0),
    "ones_like": _like(1),
    "full_like": np_full_like,
    "linspace": f_linspace,
    "arange": f_arange,
    "logspace": f_logspace,
    "geomspace": f_geomspace,
    "sum": f_sum,
    "prod": f_prod,
    "product": f_prod,
    "min": f_min,
    "amin": f_min,
    "max": f_max,
    "amax": f_max,
    "nanmin": f_nanmin,
    "nanmax": f_nanmax,
    "nansum": f_nansum,
    "nanmean": f_nanmean,
    "mean": f_mean,
    "average": f_average,
    "var": f_var,
    "std": f_std,
    "round": f_round,
    "round_": f_round,
    "around": f_round,
    "clip": f_clip,
    "cumsum": f_cumsum,
    "cumprod": f_cumprod,
    "any": f_any,
    "all": f_all,
    "alltrue": f_all,
    "sometrue": f_any,
    "argmax": f_argmax,
    "argmin": f_argmin,
    "argsort": f_argsort,
    "sort": f_sort,
    "lexsort": f_lexsort,
    "unique": f_unique,
    "nonzero": f_nonzero,
    "flatnonzero": f_flatnonzero,
    "argwhere": f_argwhere,
    "where": f_where,
    "select": f_select,
    "searchsorted": f_searchsorted,
    "digitize": f_digitize,
    "interp": f_interp,
    "diff": f_diff,
    "ediff1d": f_ediff1d,
    "dot": f_dot,
    "einsum": f_einsum,
    "inner": f_dot,
    "vdot": f_dot,
    "outer": f_outer,
    "isclose": f_isclose,
    "allclose": f_allclose,
    "array_equal": f_array_equal,
    "nan_to_num": f_nan_to_num,
    "trim_zeros": f_trim_zeros,
    "count_nonzero": f_count_nonzero,
    "concatenate": f_concatenate,
    "hstack": f_hstack,
    "vstack": f_vstack,
    "column_stack": f_column_stack,
    "stack": f_stack,
    "append": f_append,
    "insert": f_insert,
    "delete": f_delete,
    "repeat": f_repeat,
    "tile": f_tile,
    "take": f_take,
    "compress": f_compress,
    "extract": f_extract,
    "bincount": f_bincount,
    "histogram": f_histogram,
    "histogram2d": f_histogram2d,
    "median": f_median,
    "quantile": f_quantile,
    "percentile": f_percentile,
    "isin": f_isin,
    "in1d": f_isin,
    "modf": f_modf,
    "isscalar": f_isscalar,
    "vectorize": f_vectorize,
    "apply_along_axis": f_apply_along_axis,
    "trapz": f_trapz,
    "ptp": f_ptp,
    "flip": f_flip,
    "roll": f_roll,
    "piecewise": f_piecewise,
    "polyval": f_polyval,
    "broadcast_to": f_broadcast_to,
    "array_split": f_array_split,
    "isreal": lambda x: True,
    "fix": lambda x: elementwise(UF["trunc"], (x,))
    if isinstance(x, (np.ndarray, list)) else UF["trunc"](x),
}


class UfuncProxy:
    """callable stand-in for a numpy ufunc"""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__
        self.nin = uf.nin
        self.nout = uf.nout

    def _args(self, args):
        out = []
        for a in args:
            if isinstance(a, np.ndarray) and a.dtype == object:
                out.append(a.view(SymArray))
            elif isinstance(a, (list, tuple)):
                out.append(np_array(a))
            else:
                out.append(a)
        return out

    def __call__(self, *args, **kw):
        if any(_is_pandas(a) for a in args):
            return self._pandas(args, kw)
        args = self._args(args)
        n = self._uf.nin
        if len(args) > n:
            kw["out"] = args[n]
            args = args[:n]
        ot = kw.get("out")
        if isinstance(ot, tuple):
            ot = ot[0]
        if any(
            is_sym(a) or isinstance(a, SymArray) for a in args
        ) or isinstance(ot, SymArray):
            return array_ufunc(self._uf, "__call__", tuple(args), kw)
        return resym(self._uf(*args, **kw))

    def _pandas(self, args, kw):
        ref = next(a for a in args if _is_pandas(a))
        vals = [
            a.to_numpy() if _is_pandas(a) else a for a in args
        ]
        if not has_sym(vals) and not any(
            isinstance(v, np.ndarray) and v.dtype == object for v in vals
        ):
            return self._uf(*args, **kw)
        r = array_ufunc(
            self._uf,
            "__call__",
            tuple(
                v.view(SymArray)
                if isinstance(v, np.ndarray) and v.dtype == object
                else v
                for v in vals
            ),
            kw,
        )
        if hasattr(ref, "columns"):
            return type(ref)(np.asarray(r), index=ref.index,
                             columns=ref.columns)
        return type(ref)(np.asarray(r), index=ref.index, name=ref.name)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False,
               initial=_NV, where=True):
        a = np_array_like(a)
        kw = {"axis": axis, "keepdims": keepdims}
        if initial is not _NV and initial is not None:
            kw["initial"] = initial
        if isinstance(a, SymArray):
            return array_ufunc(self._uf, "reduce", (a,), kw)
        return self._uf.reduce(np.asarray(a), **kw)

    def accumulate(self, a, axis=0, **kw):
        a = np_array_like(a)
        if isinstance(a, SymArray):
            return array_ufunc(self._uf, "accumulate", (a,), {"axis": axis})
        return resym(self._uf.accumulate(np.asarray(a), axis))

    def outer(self, a, b, **kw):
        return array_ufunc(self._uf, "outer",
                           (np_array_like(a), np_array_like(b)), {})

    def at(self, a, idx, *b):
        if isinstance(a, SymArray):
            return array_ufunc(self._uf, "at", (a, idx) + b, {})
        return self._uf.at(a, idx, *b)

    def __getattr__(self, n):
        return getattr(self._uf, n)


UFP = {
    n: UfuncProxy(getattr(np, n))
    for n in dir(np)
    if isinstance(getattr(np, n), np.ufunc)
}


class _RClass:
    """np.r_ / np.c_"""

    def __init__(self, real, col):
        self._r = real
        self._col = col

    def __getitem__(self, key_):
        ks = key_ if isinstance(key_, tuple) else (key_,)
        if any(isinstance(k, str) for k in ks):
            return resym(self._r[key_])
        parts = []
        for k in ks:
            if isinstance(k, slice):
                st = 0 if k.start is None else k.start
                step = 1 if k.step is None else k.step
                if isinstance(step, complex):
                    parts.append(f_linspace(st, k.stop, int(abs(step))))
                else:
                    parts.append(f_arange(st, k.stop, step))
            else:
                parts.append(f_atleast_1d(k))
        return f_column_stack(parts) if self._col else f_concatenate(parts)


def _wrap(fn):
    @functools.wraps(fn)
    def g(*args, **kw):
        if "dtype" in kw:
            kw["dtype"] = rdt(kw["dtype"])
        a = [
            x.view(SymArray)
            if isinstance(x, np.ndarray)
            and x.dtype == object
            and not isinstance(x, SymArray)
            else np_array(x) if isinstance(x, (list, tuple)) and _deep_sym(x)
            and _flat_numeric(x)
            else x
            for x in args
        ]
        if not any(has_sym(x) for x in a) and not any(
            has_sym(x) for x in kw.values()
        ):
            a = [conc(x) for x in a]
            kw = {k: conc(v) for k, v in kw.items()}
        return resym(fn(*a, **kw))

    return g


def _flat_numeric(x):
    return all(
        is_sym(v) or isinstance(v, (int, float, np.number)) for v in x
    )


class _Random:
    """np.random: arbitrary values when the run asks for it"""

    def __getattr__(self, n):
        st = sym._state
        if st is not None and getattr(st, "rng_stub", None) is not None:
            return getattr(st.rng_stub, n)
        return getattr(np.random, n)


class _Testing:
    """np.testing on symbolic values"""

    @staticmethod
    def assert_approx_equal(actual, desired, significant=7, err_msg="",
                            verbose=True):
        if not (_deep_sym(actual) or _deep_sym(desired)):
            return np.testing.assert_approx_equal(
                conc(actual), conc(desired), significant)
        a, d = _scalar_of(actual), _scalar_of(desired)
        if bool(a == d):
            return None
        tol = 10.0 ** (1 - significant)
        if bool(a > 0) and bool(d > 0):
            # |a - d| / scale lies between 2 and 20 times |q-1|/(q+1), q = a/d
            q = a / d
            for f, verdict in ((20.0, True), (2.0, False)):
                if f <= tol:
                    continue
                hi = (f + tol) / (f - tol)
                inside = bool(q < hi) and bool(q > 1 / hi)
                if inside == verdict:
                    if verdict:
                        return None
                    raise AssertionError(err_msg or "not equal")
        half = (UFP["absolute"](a) + UFP["absolute"](d)) / 2
        scale = None
        for k in range(-30, 31):
            if bool(half < 10.0 ** (k + 1)):
                scale = 10.0 ** k
                break
        if scale is None:
            raise Unsupported("assert_approx_equal beyond 1e31")
        if bool(UFP["absolute"](a - d) >= tol * scale):
            raise AssertionError(err_msg or "not equal")
        return None

    @staticmethod
    def assert_allclose(actual, desired, rtol=1e-07, atol=0, equal_nan=True,
                        err_msg="", verbose=True):
        if not (_deep_sym(actual) or _deep_sym(desired)):
            return np.testing.assert_allclose(
                conc(actual), conc(desired), rtol, atol)
        if not bool(NP.allclose(actual, desired, rtol=rtol, atol=atol)):
            raise AssertionError(err_msg or "not equal")
        return None

    def __getattr__(self, n):
        return getattr(np.testing, n)


def _scalar_of(x):
    if isinstance(x, np.ndarray):
        return x.reshape(-1)[0] if x.size == 1 else x
    if isinstance(x, (list, tuple)) and len(x) == 1:
        return x[0]
    return x


class _F64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, SR)) and not (
            isinstance(x, SR) and x.isint
        )


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.r_ = _RClass(np.r_, False)
        self.c_ = _RClass(np.c_, True)
        self.random = _Random()
        self.testing = _Testing()
        self.__path__ = np.__path__
        self.__version__ = np.__version__

    def __getattr__(self, n):
        if n in OVERRIDES:
            v = OVERRIDES[n]
        else:
            v = getattr(np, n)
            if isinstance(v, np.ufunc):
                v = UFP[n]
            elif isinstance(v, (types.FunctionType,
                                types.BuiltinFunctionType)):
                v = _wrap(v)
        self.__dict__[n] = v
        return v


NP = NumpyProxy()


# ---------------------------------------------------------------- math


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        for n in dir(math):
            if n.startswith("__"):
                continue
            setattr(self, n, getattr(math, n))
        for n, u in {
            "exp": "exp",
            "log2": "log2",
            "log10": "log10",
            "log1p": "log1p",
            "sin": "sin",
            "cos": "cos",
            "tan": "tan",
            "asin": "arcsin",
            "acos": "arccos",
            "atan": "arctan",
            "fabs": "absolute",
            "sqrt": "sqrt",
            "isnan": "isnan",
            "isinf": "isinf",
            "isfinite": "isfinite",
        }.items():
            setattr(self, n, self._m(n, u))
        self.log = self._log
        self.pow = lambda a, b: (
            _b2("pow", a, b) if is_sym(a) or is_sym(b) else math.pow(a, b)
        )
        self.floor = lambda a: sym.s_floor(a) if is_sym(a) else math.floor(a)
        self.ceil = lambda a: sym.s_ceil(a) if is_sym(a) else math.ceil(a)
        self.trunc = lambda a: sym.s_trunc(a) if is_sym(a) else math.trunc(a)
        self.modf = lambda a: _modf(a) if is_sym(a) else math.modf(a)
        self.fsum = lambda xs: sum(xs)
        self.hypot = lambda *a: (
            UF["hypot"](*a) if has_sym(list(a)) else math.hypot(*a)
        )
        self.isclose = self._isclose
        self.copysign = lambda a, b: (
            UF["copysign"](a, b) if is_sym(a) or is_sym(b)
            else math.copysign(a, b)
        )
        self.prod = lambda xs, start=1: functools.reduce(
            operator.mul, xs, start
        )

    @staticmethod
    def _m(n, u):
        real = getattr(math, n)
        fn = UF[u]
        dom = n in ("log2", "log10", "log1p", "sqrt", "asin", "acos")

        def g(a):
            if is_sym(a):
                r = fn(a)
                if dom and not is_sym(r) and not math.isfinite(r):
                    raise ValueError("math domain error")
                return r
            return real(a)

        return g

    @staticmethod
    def _log(a, base=None):
        if not is_sym(a) and not is_sym(base):
            return math.log(a) if base is None else math.log(a, base)
        r = sym.s_log(a)
        if not is_sym(r) and not math.isfinite(r):
            raise ValueError("math domain error")
        return r if base is None else r / sym.s_log(base)

    @staticmethod
    def _isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if not is_sym(a) and not is_sym(b):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = sym.s_abs(_b2("sub", a, b))
        m = sym.s_max(sym.s_abs(a), sym.s_abs(b))
        return bool(_cmp("<=")(d, sym.s_max(_b2("mul", rel_tol, m), abs_tol)))


MATH = MathProxy()
