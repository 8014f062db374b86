"""Symbolic scalars.

A symbolic number (`SR`) is a multivariate polynomial with exact rational
coefficients over *atoms*.  Atoms are inputs, or applications such as floor(),
exp(), log(), sin() or the reciprocal/root of a polynomial.  Exponents may be
negative or fractional (only for atoms known to be non-zero / positive).  The
canonical form makes syntactically different but algebraically equal terms
identical, which keeps the solver queries small; every verdict about them is
still obtained from z3.

A symbolic truth value (`SB`) forks the execution when Python asks for its
truth (see explore.State.decide).
"""
from __future__ import annotations

import math
import numbers
from fractions import Fraction

import numpy as np

from .z3load import z3

F = Fraction
NEG, ZERO, POS = 1, 2, 4

_state = None  # current explore.State


def state():
    if _state is None:
        raise RuntimeError("symbolic value used outside a symbolic run")
    return _state


def set_state(st):
    global _state
    _state = st


class Unsupported(Exception):
    """The engine cannot model this operation."""


# --------------------------------------------------------------------------
# atoms


class Atom:
    __slots__ = ("id", "kind", "args", "sign", "isint", "name", "haslog", "zc")

    def __init__(self, id_, kind, args, sign, isint, name):
        self.id = id_
        self.kind = kind
        self.args = args
        self.sign = sign  # bitmask of possible signs
        self.isint = isint
        self.name = name
        self.haslog = False
        self.zc = {}


def _fl2frac(x):
    x = float(x)
    return F(repr(x))


def num(x):
    """number -> Fraction/int (finite only)"""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x
    return _norm(_fl2frac(x))


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def is_num(x):
    return isinstance(
        x, (int, float, np.integer, np.floating, np.bool_, Fraction)
    )


def finite(x):
    if isinstance(x, (float, np.floating)):
        return math.isfinite(x)
    return True


# --------------------------------------------------------------------------
# polynomials: dict  mono -> coef ; mono = tuple of (atom id, exponent)


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if k == 1 else c * k)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = _norm(v)
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: _norm(c * k) for m, c in a.items()}


def _mono_mul(m1, m2):
    """merge two monomials -> (mono, needs_fix)"""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    fix = False
    for i, e in m2:
        if i in d:
            fix = True
            s = d[i] + e
            if s == 0:
                del d[i]
            else:
                d[i] = _norm(s)
        else:
            d[i] = e
    return tuple(sorted(d.items())), fix


def p_mul(a, b):
    st = state()
    r = {}
    extra = None
    hasexp = st.has_exp
    haspoly = st.has_poly
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, fix = _mono_mul(m1, m2)
            c = c1 * c2
            if hasexp or (fix and haspoly):
                q = _fix_mono(m)
                if q is not None:
                    q = p_scale(q, c)
                    extra = q if extra is None else p_add(extra, q)
                    continue
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = _norm(v)
    if extra is not None:
        r = p_add(r, extra)
    return r


def _fix_mono(m):
    """Re-normalise a monomial: merge EXP atoms, expand POLY atoms that got a
    positive integer exponent.  Returns a poly or None when nothing to do."""
    st = state()
    exps = []
    polys = []
    rest = []
    for i, e in m:
        at = st.atoms[i]
        if at.kind == "exp":
            exps.append((at, e))
        elif at.kind == "poly" and (isinstance(e, int) and e > 0):
            polys.append((at, e))
        else:
            rest.append((i, e))
    if len(exps) == 1 and exps[0][1] == 1 and not polys:
        return None
    if not exps and not polys:
        return None
    res = {tuple(rest): 1}
    if exps:
        if len(exps) == 1 and exps[0][1] == 1:
            res = {_mono_mul(tuple(rest), ((exps[0][0].id, 1),))[0]: 1}
        else:
            tot = {}
            for at, e in exps:
                tot = p_add(tot, p_scale(at.args[0].t, e))
            ex = exp_poly(tot)
            res = _raw_mul(res, ex)
    for at, e in polys:
        for _ in range(e):
            res = p_mul(res, at.args[0].t)
    return res


def _raw_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, _ = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = _norm(v)
    return r


def exp_poly(t):
    """poly of exp(t)"""
    st = state()
    c = t.get((), 0)
    mono = {}
    rest = {}
    for m, k in t.items():
        if m == ():
            continue
        if len(m) == 1 and m[0][1] == 1 and st.atoms[m[0][0]].kind == "log":
            base = st.atoms[m[0][0]].args[0]  # atom id
            mono[base] = _norm(mono.get(base, 0) + k)
        else:
            rest[m] = k
    try:
        coef = math.exp(float(c)) if c != 0 else 1
    except OverflowError:
        raise Unsupported("exp overflow")
    coef = num(coef)
    if coef == 0:
        raise Unsupported("exp underflow")
    mm = [(i, e) for i, e in mono.items() if e != 0]
    if rest:
        at = st.atom("exp", (SR(rest),), POS)
        st.has_exp = True
        mm.append((at.id, 1))
    p = {tuple(sorted(mm)): coef}
    q = _fix_mono(next(iter(p)))
    if q is not None:
        p = p_scale(q, coef)
    return p


def mono_sign(m):
    st = state()
    s = POS
    for i, e in m:
        at = st.atoms[i]
        sg = st.sign_of_atom(at)
        if isinstance(e, int) and e % 2 == 0:
            sg = (POS if sg & (NEG | POS) else 0) | (sg & ZERO)
        elif not isinstance(e, int):
            sg = (sg & (POS | ZERO)) or POS
        s = _sign_mul(s, sg)
    return s


def _sign_mul(a, b):
    r = 0
    if (a & ZERO) or (b & ZERO):
        r |= ZERO
    if (a & POS and b & POS) or (a & NEG and b & NEG):
        r |= POS
    if (a & POS and b & NEG) or (a & NEG and b & POS):
        r |= NEG
    return r


def _flip(s):
    return (s & ZERO) | (NEG if s & POS else 0) | (POS if s & NEG else 0)


def poly_sign(t):
    """static sign set of a polynomial"""
    if not t:
        return ZERO
    acc = None
    for m, c in t.items():
        s = mono_sign(m)
        if c < 0:
            s = _flip(s)
        if acc is None:
            acc = s
        else:
            acc = _sign_add(acc, s)
        if acc == 7:
            return 7
    return acc


def _sign_add(a, b):
    r = 0
    for x in (NEG, ZERO, POS):
        if not a & x:
            continue
        for y in (NEG, ZERO, POS):
            if not b & y:
                continue
            if x == ZERO:
                r |= y
            elif y == ZERO:
                r |= x
            elif x == y:
                r |= x
            else:
                r |= 7
    return r


def content(t):
    """(positive monomial content, coefficient content) of a poly; only atoms
    known to be positive (or non-zero when even) are taken out."""
    st = state()
    ms = list(t)
    common = None
    for m in ms:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {
                i: min(e, d[i]) if i in d else min(e, 0)
                for i, e in common.items()
            } | {i: min(e, 0) for i, e in d.items() if i not in common}
    common = {
        i: e
        for i, e in (common or {}).items()
        if e != 0 and st.sign_of_atom(st.atoms[i]) == POS
    }
    return tuple(sorted(common.items()))


def key(t):
    return frozenset(t.items())


def lead_coef(t):
    # deterministic leading coefficient
    m = min((mm for mm in t if mm != ()), default=())
    return t[m]


# --------------------------------------------------------------------------
# symbolic real


class SR:
    __slots__ = ("t", "_k", "isint")
    __array_priority__ = 1e6

    def __init__(self, t, isint=False):
        self.t = t
        self._k = None
        self.isint = isint

    # -- helpers
    @property
    def key(self):
        if self._k is None:
            self._k = key(self.t)
        return self._k

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def __repr__(self):
        return "<sym %s>" % show(self)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return 17

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- arithmetic
    def __add__(self, o):
        return binop("add", self, o)

    def __radd__(self, o):
        return binop("add", o, self)

    def __sub__(self, o):
        return binop("sub", self, o)

    def __rsub__(self, o):
        return binop("sub", o, self)

    def __mul__(self, o):
        return binop("mul", self, o)

    def __rmul__(self, o):
        return binop("mul", o, self)

    def __truediv__(self, o):
        return binop("div", self, o)

    def __rtruediv__(self, o):
        return binop("div", o, self)

    def __pow__(self, o, mod=None):
        return binop("pow", self, o)

    def __rpow__(self, o):
        return binop("pow", o, self)

    def __floordiv__(self, o):
        return binop("floordiv", self, o)

    def __rfloordiv__(self, o):
        return binop("floordiv", o, self)

    def __mod__(self, o):
        return binop("mod", self, o)

    def __rmod__(self, o):
        return binop("mod", o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return mk({m: -c for m, c in self.t.items()}, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    # -- comparisons
    def __lt__(self, o):
        return compare("<", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __gt__(self, o):
        return compare(">", self, o)

    def __ge__(self, o):
        return compare(">=", self, o)

    def __eq__(self, o):
        return compare("==", self, o)

    def __ne__(self, o):
        return compare("!=", self, o)

    def __bool__(self):
        return bool(compare("!=", self, 0))

    # -- conversions
    def __float__(self):
        return float(state().concretise(self))

    def __int__(self):
        return int(enum_int(s_trunc(self)))

    def __index__(self):
        if not self.isint:
            raise TypeError(
                "'float' object cannot be interpreted as an integer"
            )
        return int(enum_int(self))

    def __trunc__(self):
        return s_trunc(self)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def __round__(self, nd=None):
        if nd is None:
            return s_rint(self)
        return s_round(self, int(nd))

    def is_integer(self):
        return compare("==", self, s_floor(self))

    # numpy calls these on object arrays
    def sqrt(self):
        return s_pow(self, F(1, 2))

    def exp(self):
        return s_exp(self)

    def log(self):
        return s_log(self)

    def log10(self):
        return s_log(self) / math.log(10)

    def log2(self):
        return s_log(self) / math.log(2)

    def sin(self):
        return s_trig("sin", self)

    def cos(self):
        return s_trig("cos", self)

    def tan(self):
        return s_trig("sin", self) / s_trig("cos", self)

    def arcsin(self):
        return s_trig("arcsin", self)

    def arccos(self):
        return s_trig("arccos", self)

    def arctan(self):
        return s_trig("arctan", self)

    def rint(self):
        return s_rint(self)

    def floor(self):
        return s_floor(self)

    def ceil(self):
        return s_ceil(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    # np.float64 scalar API surface used by array code
    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def item(self):
        return self

    def round(self, decimals=0):
        return s_round(self, int(decimals))

    def astype(self, dt, **kw):
        if np.dtype(dt).kind in "iu":
            return int(self)
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def max(self, *a, **k):
        return self

    min = max
    sum = max
    mean = max

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim

        return npshim.array_ufunc(ufunc, method, inputs, kw)


numbers.Real.register(SR)


def mk(t, isint=False):
    """SR or concrete number when constant"""
    if not t:
        return 0 if isint else np.float64(0.0)
    if len(t) == 1 and () in t:
        c = t[()]
        if isint and isinstance(c, int):
            return c
        if isinstance(c, Fraction):
            return _frac2f(c)
        try:
            return np.float64(c)
        except OverflowError:
            raise Unsupported("overflow")
    return SR(t, isint)


def _frac2f(c):
    try:
        return np.float64(float(c))
    except OverflowError:
        raise Unsupported("overflow")


def lift(x):
    """-> SR (never constant-folded)"""
    if isinstance(x, SR):
        return x
    if isinstance(x, SB):
        return lift(sb_num(x))
    c = num(x)
    return SR({(): c} if c != 0 else {}, isinstance(c, int))


def _int_ish(x):
    if isinstance(x, SR):
        return x.isint
    return isinstance(x, (int, np.integer)) or isinstance(x, (bool, np.bool_))


def binop(op, a, b):
    # sequences / arrays on the other side
    for x in (a, b):
        if isinstance(x, np.ndarray):
            from . import npshim

            return npshim.elementwise2(op, a, b)
    if isinstance(a, SB):
        a = sb_num(a)
    if isinstance(b, SB):
        b = sb_num(b)
    ok_a = isinstance(a, SR) or is_num(a)
    ok_b = isinstance(b, SR) or is_num(b)
    if not (ok_a and ok_b):
        return NotImplemented
    if not isinstance(a, SR) and not isinstance(b, SR):
        return _conc(op, a, b)
    if not finite(a) or not finite(b):
        return _nonfinite(op, a, b)
    ii = _int_ish(a) and _int_ish(b)
    if op == "add":
        return mk(p_add(lift(a).t, lift(b).t), ii)
    if op == "sub":
        return mk(p_add(lift(a).t, lift(b).t, -1), ii)
    if op == "mul":
        if not isinstance(a, SR):
            return mk(p_scale(b.t, num(a)), ii)
        if not isinstance(b, SR):
            return mk(p_scale(a.t, num(b)), ii)
        return mk(p_mul(a.t, b.t), ii)
    if op == "div":
        return s_div(a, b)
    if op == "pow":
        return s_pow(a, b)
    if op == "floordiv":
        q = s_div(a, b)
        if isinstance(q, SR):
            r = s_floor(q)
            return r if ii else _as_float(r)
        return np.floor(q)
    if op == "mod":
        q = s_div(a, b)
        if isinstance(q, SR):
            r = lift(a) - lift(b) * s_floor(q)
            if isinstance(r, SR):
                r = SR(r.t, ii)
            return r
        if not finite(q):
            return np.float64("nan")
        return lift(a) - lift(b) * np.floor(q)
    raise Unsupported(op)


def _as_float(r):
    if isinstance(r, SR):
        return SR(r.t, False)
    return np.float64(r)


def _conc(op, a, b):
    with np.errstate(all="ignore"):
        a = a if isinstance(a, (int, np.integer)) else np.float64(a)
        b = b if isinstance(b, (int, np.integer)) else np.float64(b)
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "div":
            return np.float64(a) / np.float64(b)
        if op == "pow":
            return (
                np.float64(a) ** b
                if not isinstance(a, (int, np.integer)) or b < 0
                else a**b
            )
        if op == "floordiv":
            return a // b
        if op == "mod":
            return a % b
    raise Unsupported(op)


def _nonfinite(op, a, b):
    """one operand is inf/nan, the other symbolic (hence finite)"""
    nan = np.float64("nan")
    inf = np.float64("inf")
    if (not isinstance(a, SR) and a != a) or (not isinstance(b, SR) and b != b):
        return nan
    if op == "add":
        return np.float64(a if not isinstance(a, SR) else b)
    if op == "sub":
        return np.float64(a) if not isinstance(a, SR) else -np.float64(b)
    if op == "mul":
        s, i = (a, b) if isinstance(a, SR) else (b, a)
        if s > 0:
            return np.float64(i)
        if s < 0:
            return -np.float64(i)
        return nan
    if op == "div":
        if isinstance(a, SR):
            return np.float64(0.0)
        if b < 0:
            return -np.float64(a)
        return np.float64(a)
    if op == "pow":
        if isinstance(a, SR):  # sym ** inf
            ab = s_abs(a)
            if ab == 1:
                return np.float64(1.0)
            big = bool(ab > 1)
            return inf if big == (b > 0) else np.float64(0.0)
        # inf ** sym
        if b > 0:
            return inf
        if b < 0:
            return np.float64(0.0)
        return np.float64(1.0)
    return nan


def s_div(a, b):
    if not isinstance(b, SR):
        c = num(b)
        if c == 0:
            # numpy semantics
            if a > 0:
                return np.float64("inf")
            if a < 0:
                return np.float64("-inf")
            return np.float64("nan")
        return mk(p_scale(lift(a).t, F(1) / c))
    if b == 0:  # forks
        if isinstance(a, SR):
            if a > 0:
                return np.float64("inf")
            if a < 0:
                return np.float64("-inf")
            return np.float64("nan")
        with np.errstate(all="ignore"):
            return np.float64(a) / np.float64(0.0)
    at = lift(a).t
    q = _cancel(at, b.t)
    if q is not None:
        return mk(q)
    return mk(p_mul(at, inv_poly(b.t)))


def _mono_inv(m):
    return tuple((i, -e) for i, e in m)


def _pow_mono(m, r):
    """monomial ** rational (returns poly)"""
    mm = tuple(sorted((i, _norm(F(e) * r)) for i, e in m if e * r != 0))
    q = _fix_mono(mm)
    return q if q is not None else {mm: 1}


def inv_poly(t):
    if len(t) == 1:
        ((m, c),) = t.items()
        return p_scale(_pow_mono(m, -1), F(1) / c)
    atm, cc, cm = poly_atom(t)
    r = {((atm.id, -1),): F(1) / cc}
    if cm:
        r = p_mul(r, {_mono_inv(cm): 1})
    return r


def _cancel(a, b):
    """a/b when both have the same primitive part, else None"""
    if len(a) != len(b) or len(a) == 1:
        return None
    ca, cb = content(a), content(b)
    pa = _raw_mul(a, {_mono_inv(ca): 1}) if ca else a
    pb = _raw_mul(b, {_mono_inv(cb): 1}) if cb else b
    k = proportional(pa, pb)
    if k is None:
        return None
    return p_scale(_mul_mono_poly(ca, _mono_inv(cb)), k)


def _mul_mono_poly(m1, m2):
    return p_mul({m1: 1}, {m2: 1})


def proportional(a, b):
    """k such that a == k*b, else None"""
    if len(a) != len(b):
        return None
    k = None
    for m, c in b.items():
        if m not in a:
            return None
        q = F(a[m]) / c
        if k is None:
            k = q
        elif q != k:
            return None
    return _norm(k)


def poly_atom(t):
    """(POLY atom of the primitive part, coefficient, monomial content)"""
    st = state()
    cm = content(t)
    if cm:
        t = _raw_mul(t, {_mono_inv(cm): 1})
    lc = lead_coef(t)
    sg = st.sign_of_poly(t)
    if sg == POS or sg == (POS | ZERO):
        k = abs(lc)
    elif sg == NEG or sg == (NEG | ZERO):
        k = -abs(lc)
    else:
        k = lc
    p = p_scale(t, F(1) / k)
    st.has_poly = True
    sgn = sg if k > 0 else _flip(sg)
    at = st.atom("poly", (SR(p),), sgn)
    return at, k, cm


def s_pow(a, b):
    st = state()
    if isinstance(b, SR):
        if b.isint:
            return s_pow(a, enum_int(b))
        # symbolic exponent: exp(b*log a)
        if not isinstance(a, SR):
            if a > 0:
                if a == 1:
                    return np.float64(1.0)
                return s_exp(b * math.log(a))
            if a == 0:
                if b > 0:
                    return np.float64(0.0)
                if b < 0:
                    return np.float64("inf")
                return np.float64(1.0)
            return np.float64("nan")
        if a > 0:
            return s_exp(b * s_log(a))
        if a == 0:
            if b > 0:
                return np.float64(0.0)
            if b < 0:
                return np.float64("inf")
            return np.float64(1.0)
        return np.float64("nan")
    e = num(b)
    if not isinstance(a, SR):
        return _conc("pow", a, b)
    if isinstance(e, Fraction) and e.denominator > 64:
        # a float such as 1/3: the small rational it stands for
        q = e.limit_denominator(64)
        if abs(q - e) <= abs(e) * F(1, 10 ** 15):
            e = q.numerator if q.denominator == 1 else q
    if isinstance(e, int):
        if e == 0:
            return np.float64(1.0)
        if e > 0:
            if len(a.t) == 1:
                ((m, c),) = a.t.items()
                return mk(p_scale(_pow_mono(m, e), F(c) ** e), a.isint)
            if e > 12:
                raise Unsupported("large power of a sum")
            r = a.t
            for _ in range(e - 1):
                r = p_mul(r, a.t)
            return mk(r, a.isint)
        return s_div(np.float64(1.0), s_pow(a, -e))
    # fractional exponent
    if a > 0:
        if len(a.t) == 1:
            ((m, c),) = a.t.items()
            if all(st.sign_of_atom(st.atoms[i]) == POS for i, _ in m):
                return mk(
                    p_scale(_pow_mono(m, e), num(float(c) ** float(e)))
                )
        at, c, cm = poly_atom(a.t)
        if c < 0:
            c = -c
            at, c2, _ = poly_atom(p_scale(at.args[0].t, -1))
            c = c * c2
        st.force_pos(at)
        r = p_scale({((at.id, e),): 1}, num(float(c) ** float(e)))
        if cm:
            r = p_mul(r, _pow_mono(cm, e))
        return mk(r)
    if a == 0:
        return np.float64(0.0) if e > 0 else np.float64("inf")
    return np.float64("nan")


def s_exp(a):
    if not isinstance(a, SR):
        with np.errstate(all="ignore"):
            return np.exp(np.float64(a))
    return mk(exp_poly(a.t))


def s_log(a):
    st = state()
    if not isinstance(a, SR):
        with np.errstate(all="ignore"):
            return np.log(np.float64(a))
    if a > 0:
        return mk(log_poly(a.t))
    if a == 0:
        return np.float64("-inf")
    return np.float64("nan")


def log_poly(t):
    """poly of log(t) for t known positive"""
    st = state()
    if len(t) == 1:
        ((m, c),) = t.items()
        ok = all(
            st.atoms[i].kind == "exp"
            or st.sign_of_atom(st.atoms[i]) == POS
            for i, _ in m
        )
        if ok and c > 0:
            r = {}
            lc = _log_frac(c)
            if lc:
                r[()] = lc
            for i, e in m:
                at = st.atoms[i]
                if at.kind == "exp":
                    r = p_add(r, p_scale(at.args[0].t, e))
                else:
                    r = p_add(r, {((st.log_atom(at).id, 1),): e})
            return r
    at, c, cm = poly_atom(t)
    if c < 0:
        at, c2, _ = poly_atom(p_scale(at.args[0].t, -1))
        c = -c * c2
    st.force_pos(at)
    r = {((st.log_atom(at).id, 1),): 1}
    lc = _log_frac(c)
    if lc:
        r = p_add(r, {(): lc})
    if cm:
        r = p_add(r, log_poly({cm: 1}))
    return r


def _log_frac(c):
    c = F(c)
    if c == 1:
        return 0
    try:
        v = math.log(c)
    except (OverflowError, ValueError):
        v = math.log(c.numerator) - math.log(c.denominator)
    return num(v)


def s_abs(a):
    if not isinstance(a, SR):
        return abs(a)
    if a >= 0:
        return a
    return -a


def s_sign(a):
    if not isinstance(a, SR):
        return np.sign(a)
    if a > 0:
        return np.float64(1.0)
    if a < 0:
        return np.float64(-1.0)
    return np.float64(0.0)


def s_max(a, b):
    """numpy maximum semantics (nan propagates)"""
    for x in (a, b):
        if not isinstance(x, SR) and x != x:
            return np.float64("nan")
    return a if bool(a >= b) else b


def s_min(a, b):
    for x in (a, b):
        if not isinstance(x, SR) and x != x:
            return np.float64("nan")
    return a if bool(a <= b) else b


def s_extreme(vals, hi):
    """smallest (largest, if hi) of linear values as a defined number,
    without deciding which one it is; None where that is not possible"""
    st = state()
    vs = []
    for v in vals:
        if not isinstance(v, SR):
            try:
                v = float(v)
            except (TypeError, ValueError):
                return None
            if not math.isfinite(v):
                return None
            v = lift(v)
        for m in v.t:
            if m and (len(m) != 1 or m[0][1] != 1):
                return None
            if m and (st.atoms[m[0][0]].kind not in ("var", "min", "max")
                      or st.atoms[m[0][0]].haslog):
                return None
        for i, w in enumerate(vs):
            d = st.sign_of_poly(p_add(v.t, p_scale(w.t, -1)))
            if d in (POS, POS | ZERO, ZERO):
                if hi:
                    vs[i] = v
                break
            if d in (NEG, NEG | ZERO):
                if not hi:
                    vs[i] = v
                break
        else:
            vs.append(v)
    vs = list({v.key: v for v in vs}.values())
    if len(vs) == 1:
        return vs[0]
    sg, miss = 0, 0
    for v in vs:
        s = st.sign_of_poly(v.t)
        sg |= s
        if hi and not s & NEG:
            miss |= NEG
            if not s & ZERO:
                miss |= ZERO
        if not hi and not s & POS:
            miss |= POS
            if not s & ZERO:
                miss |= ZERO
    at = st.atom("max" if hi else "min", tuple(vs), sg & ~miss,
                 isint=all(v.isint for v in vs))
    return SR({((at.id, 1),): 1}, at.isint)


FMT = {"f32": np.float32, "f16": np.float16}
# atoms whose value the solver knows by bounds only
INEXACT = ("exp", "log", "sin", "cos", "arcsin", "arctan", "f32", "f16")


def s_short(a, fmt):
    """a as stored in a shorter floating point format"""
    if not isinstance(a, SR):
        with np.errstate(all="ignore"):
            return np.float64(FMT[fmt](a))
    st = state()
    at = st.atom(fmt, (a,), 7)
    return SR({((at.id, 1),): 1})


def s_floor(a):
    st = state()
    if not isinstance(a, SR):
        return math.floor(a)
    if _whole(a):
        return SR(a.t, True)
    if _ratio(a):
        n = _floor_walk(a)
        if n is not None:
            return n
    at = st.atom("floor", (a,), 7, isint=True)
    return SR({((at.id, 1),): 1}, True)


def _whole(a):
    """integer by construction"""
    if a.isint:
        return True
    at = state().atoms
    for m, c in a.t.items():
        if getattr(c, "denominator", 1) != 1:
            return False
        for i, e in m:
            if not at[i].isint or not isinstance(e, int) or e < 0:
                return False
    return True


def _ratio(a):
    """has a product or quotient of inputs"""
    return any(len(m) > 1 or (m and m[0][1] != 1) for m in a.t)


def _floor_walk(a, cap=40):
    """floor of a non-linear value by comparing it with integers (comparisons
    with a quotient are linear, its floor is not)"""
    n = 0
    if bool(a >= 0):
        while bool(a >= n + 1):
            n += 1
            if n > cap:
                return None
        return n
    while not bool(a >= n):
        n -= 1
        if n < -cap:
            return None
    return n


def s_ceil(a):
    if not isinstance(a, SR):
        return math.ceil(a)
    if a.isint:
        return a
    return -s_floor(-a)


def s_trunc(a):
    if not isinstance(a, SR):
        return int(a)
    if a.isint:
        return a
    if a >= 0:
        return s_floor(a)
    return s_ceil(a)


def s_rint(a):
    st = state()
    if not isinstance(a, SR):
        return round(float(a))
    if _whole(a):
        return SR(a.t, True)
    if _ratio(a):
        n = _floor_walk(a + Fraction(1, 2))
        if n is not None:
            if n % 2 and bool(a == n - Fraction(1, 2)):
                n -= 1
            return n
    at = st.atom("rint", (a,), 7, isint=True)
    return SR({((at.id, 1),): 1}, True)


def s_round(a, nd):
    if not isinstance(a, SR):
        return np.float64(np.round(np.float64(a), nd))
    if a.isint and nd >= 0:
        return a
    k = 10**nd if nd >= 0 else F(1, 10**-nd)
    r = s_rint(SR(p_scale(a.t, k)))
    return mk(p_scale(lift(r).t, F(1) / k))


def s_trig(fn, a):
    st = state()
    if not isinstance(a, SR):
        with np.errstate(all="ignore"):
            return getattr(np, fn)(np.float64(a))
    neg = False
    if fn in ("arcsin",):
        if a > 1 or a < -1:
            return np.float64("nan")
    if fn == "arccos":
        return np.float64(math.pi / 2) - s_trig("arcsin", a)
    if fn in ("sin", "cos", "arcsin", "arctan") and lead_coef(a.t) < 0:
        a = -a
        neg = fn != "cos"
    sg = 7
    if fn in ("arcsin", "arctan"):
        sg = st.sign_of_poly(a.t)
    at = st.atom(fn, (a,), sg)
    r = SR({((at.id, 1),): 1})
    return -r if neg else r


def enum_int(a):
    """integer value by forking over the feasible values"""
    if not isinstance(a, SR):
        return int(a)
    return state().enum_int(a)


def ite(c, a, b):
    if isinstance(c, SB):
        return a if bool(c) else b
    return a if c else b


# --------------------------------------------------------------------------
# symbolic booleans


class SB:
    """kinds: ('atom', SR p, rel) meaning p rel 0 with rel in '<','<=','==';
    ('not', x) ('and', xs) ('or', xs)"""

    __slots__ = ("kind", "args")

    def __init__(self, kind, args):
        self.kind = kind
        self.args = args

    def __bool__(self):
        return state().decide(self)

    def __and__(self, o):
        return sb_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sb_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return sb_not(self)

    def __xor__(self, o):
        return sb_or(sb_and(self, sb_not(o)), sb_and(sb_not(self), o))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SB, bool, np.bool_)):
            return sb_not(self ^ o)
        return compare("==", sb_num(self), o)

    def __ne__(self, o):
        return sb_not(self == o)

    def __hash__(self):
        return 19

    def __add__(self, o):
        return sb_num(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return sb_num(self) - o

    def __rsub__(self, o):
        return o - sb_num(self)

    def __mul__(self, o):
        return sb_num(self) * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return sb_num(self) / o

    def __neg__(self):
        return -sb_num(self)

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __lt__(self, o):
        return compare("<", sb_num(self), o)

    def __le__(self, o):
        return compare("<=", sb_num(self), o)

    def __gt__(self, o):
        return compare(">", sb_num(self), o)

    def __ge__(self, o):
        return compare(">=", sb_num(self), o)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<symbool %s>" % showb(self)

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim

        return npshim.array_ufunc(ufunc, method, inputs, kw)


def sb_num(b):
    return int(bool(b))


def sb_not(b):
    if not isinstance(b, SB):
        return not b
    if b.kind == "not":
        return b.args[0]
    if b.kind == "atom":
        p, rel = b.args
        if rel == "<":  # not p<0  ->  -p<=0
            return SB("atom", (SR(p_scale(p.t, -1)), "<="))
        if rel == "<=":
            return SB("atom", (SR(p_scale(p.t, -1)), "<"))
    return SB("not", (b,))


def sb_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SB):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SB("and", tuple(out))


def sb_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SB):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SB("or", tuple(out))


_OPS = {
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
}


def compare(rel, a, b):
    for x in (a, b):
        if isinstance(x, np.ndarray):
            from . import npshim

            return npshim.elementwise_cmp(rel, a, b)
    if isinstance(a, SB):
        a = sb_num(a)
    if isinstance(b, SB):
        b = sb_num(b)
    ok_a = isinstance(a, SR) or is_num(a)
    ok_b = isinstance(b, SR) or is_num(b)
    if not (ok_a and ok_b):
        if rel == "==":
            return False
        if rel == "!=":
            return True
        return NotImplemented
    if not isinstance(a, SR) and not isinstance(b, SR):
        return bool(_OPS[rel](a, b))
    if not finite(a) or not finite(b):
        # the symbolic side is finite: any finite stand-in gives the answer
        fa = 0.0 if isinstance(a, SR) else float(a)
        fb = 0.0 if isinstance(b, SR) else float(b)
        return bool(_OPS[rel](fa, fb))
    if rel in (">", ">="):
        a, b = b, a
        rel = "<" if rel == ">" else "<="
    p = p_add(lift(a).t, lift(b).t, -1)
    if rel == "!=":
        return sb_not(atom_cmp(p, "=="))
    return atom_cmp(p, rel)


def atom_cmp(p, rel):
    """truth of  p rel 0"""
    st = state()
    sg = poly_sign(p)
    r = _sign_rel(sg, rel)
    if r is not None:
        return r
    cm = content(p)
    if cm:
        p = _raw_mul(p, {_mono_inv(cm): 1})
    p = _log_mode(p)
    if not p or (len(p) == 1 and () in p):
        c = p.get((), 0)
        return bool(_OPS[rel](c, 0))
    return SB("atom", (SR(p), rel))


def _sign_rel(sg, rel):
    """three valued: does a value with sign set sg satisfy rel 0"""
    if rel == "<":
        if sg == NEG:
            return True
        if not sg & NEG:
            return False
    elif rel == "<=":
        if not sg & POS:
            return True
        if sg == POS:
            return False
    elif rel == "==":
        if sg == ZERO:
            return True
        if not sg & ZERO:
            return False
    return None


def _root(m1, c1, m2, c2):
    """c1 x^e - c2 y^e (e > 0) compares like its e-th root"""
    st = state()
    if len(m1) > 1 or len(m2) > 1:
        return None
    es = {e for m in (m1, m2) for _, e in m}
    if len(es) != 1:
        return None
    e = es.pop()
    for m in (m1, m2):
        for i, _ in m:
            at = st.atoms[i]
            if at.haslog or at.kind in ("exp", "poly"):
                return None
    if e <= 0:
        return None
    k = Fraction(float(Fraction(-c2) / Fraction(c1)) ** (1 / float(e)))
    up = (lambda m: tuple((i, 1) for i, _ in m))
    return {up(m1): 1, up(m2): -k}


def _log_mode(p):
    """c1*m1 - c2*m2 (both positive) compares like log(c1 m1) - log(c2 m2)"""
    st = state()
    if len(p) != 2:
        return p
    (m1, c1), (m2, c2) = p.items()
    if c1 * c2 > 0:
        return p
    if c1 < 0:
        m1, c1, m2, c2 = m2, c2, m1, c1
    lin = True
    for m in (m1, m2):
        for i, e in m:
            at = st.atoms[i]
            if st.sign_of_atom(at) != POS:
                return p
            if e != 1 or at.haslog or at.kind in ("exp", "poly"):
                lin = False
        if len(m) > 1:
            lin = False
    if lin:
        return p
    q = _root(m1, c1, m2, c2)
    if q is not None:
        return q
    la = log_poly({m1: c1})
    lb = log_poly({m2: -c2})
    return p_add(la, lb, -1)


# --------------------------------------------------------------------------
# printing


def show(x):
    if not isinstance(x, SR):
        return repr(x)
    st = _state
    parts = []
    for m, c in sorted(x.t.items(), key=lambda mc: str(mc[0])):
        s = "*".join(
            (st.atoms[i].name if st else "a%d" % i)
            + ("" if e == 1 else "^%s" % e)
            for i, e in m
        )
        parts.append(("%s*%s" % (c, s)) if s else str(c))
        if len(parts) > 6:
            parts.append("...")
            break
    return " + ".join(parts)


def showb(b):
    if not isinstance(b, SB):
        return str(b)
    if b.kind == "atom":
        return "%s %s 0" % (show(b.args[0]), b.args[1])
    return "%s(%s)" % (b.kind, ", ".join(showb(x) for x in b.args))
