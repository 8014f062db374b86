"""Path exploration: one `State` per symbolic path, depth first re-execution
from a decision prefix, feasibility and verdicts by z3."""
from __future__ import annotations

import math
import time
import traceback
import warnings
from fractions import Fraction as F

import numpy as np

from . import sym
from .sym import NEG, POS, SB, SR, ZERO, Atom, p_scale
from .z3load import z3


class PathEnd(BaseException):
    """Stops the current path (infeasible assumption, ...)."""


class PathLimit(BaseException):
    """Too many decisions on one path."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.decisions = 0

    def as_dict(self):
        return dict(self.__dict__)


_Z = {}


def _zreal(name):
    v = _Z.get(name)
    if v is None:
        v = _Z[name] = z3.Real(name)
    return v


def _zint(name):
    v = _Z.get(("i", name))
    if v is None:
        v = _Z[("i", name)] = z3.Int(name)
    return v


_RV = {}


def rv(c):
    v = _RV.get(c)
    if v is None:
        if isinstance(c, F):
            v = z3.RealVal("%d/%d" % (c.numerator, c.denominator))
        else:
            v = z3.RealVal(int(c))
        if len(_RV) < 20000:
            _RV[c] = v
    return v


# kinds whose atoms are shared when the coefficients of their arguments
# differ by no more than float rounding
NEAR = {"exp", "poly", "sin", "cos", "arcsin", "arctan"}


def _alike(a, b):
    for m, c in a.items():
        if abs(c - b[m]) > abs(c) / 10 ** 12:
            return False
    return True


class State:
    def __init__(self, prefix, stats, opts):
        self.atoms = []
        self.intern = {}
        self.near = {}
        self.has_exp = False
        self.has_poly = False
        self.facts = {}
        self.stats = stats
        self.opts = opts
        self.prefix = prefix
        self.trace = []  # decisions taken
        self.pending = []  # alternative prefixes
        self.pc = []  # list of SB decided true
        self.axioms = []  # functions mode -> list of z3
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("feas_ms", 4000))
        self.model = None
        self.model_vals = {}
        self.monos = {}  # mono -> z3 var (lin mode)
        self.nonlinear = False
        self.zcache = {"lin": {}, "full": {}}
        self.partial = False
        self.n_check = 0
        self.logs = []
        self.exps = []
        self.max_dec = opts.get("max_decisions", 4000)
        self.deadline = opts.get("deadline")

    # ---------------------------------------------------------------- atoms
    def atom(self, kind, args, sign, isint=False, name=None):
        k = (kind, tuple(a.key if isinstance(a, SR) else a for a in args))
        at = self.intern.get(k)
        if at is not None:
            return at
        near = None
        if kind in NEAR:
            near = self.near.setdefault((kind, frozenset(args[0].t)), [])
            for at in near:
                if _alike(at.args[0].t, args[0].t):
                    self.intern[k] = at
                    return at
        id_ = len(self.atoms)
        at = Atom(id_, kind, args, sign, isint, name or "%s%d" % (kind, id_))
        self.atoms.append(at)
        self.intern[k] = at
        if near is not None:
            near.append(at)
        if kind == "exp":
            self.exps.append(at)
        self._define(at)
        return at

    def log_atom(self, base):
        at = self.intern.get(("log", (base.id,)))
        if at is None:
            base.haslog = True
            at = self.atom("log", (base.id,), 7, name="log_" + base.name)
        return at

    def force_pos(self, at):
        at.sign = POS

    def sign_of_atom(self, at):
        s = at.sign
        if s == POS or s == NEG or s == ZERO:
            return s
        f = self.facts.get(frozenset([(((at.id, 1),), 1)]))
        return s & f if f is not None else s

    def _canon(self, t):
        """(facts key, flipped)"""
        lc = sym.lead_coef(t)
        if lc == 1:
            return sym.key(t), False
        if lc == -1:
            return sym.key({m: -c for m, c in t.items()}), True
        q = F(1) / lc
        return sym.key(p_scale(t, q)), lc < 0

    def sign_of_poly(self, t):
        s = sym.poly_sign(t)
        if s in (NEG, ZERO, POS) or not t or (len(t) == 1 and () in t):
            return s
        k, fl = self._canon(t)
        f = self.facts.get(k)
        if f is not None:
            s &= sym._flip(f) if fl else f
        return s

    # ------------------------------------------------------------ z3 terms
    def zatom(self, at, mode):
        if at.isint:
            return z3.ToReal(_zint(at.name))
        return _zreal(at.name)

    def zmono(self, m, mode):
        if len(m) == 1 and m[0][1] == 1:
            return self.zatom(self.atoms[m[0][0]], mode)
        self.nonlinear = True
        if mode == "lin":
            v = self.monos.get(m)
            if v is None:
                v = self.monos[m] = _zreal(
                    "mono!" + "_".join("%d^%s" % ie for ie in m)
                )
                self.model = None
                s = sym.mono_sign(m)
                c = _zsign(v, s)
                if c is not None:
                    self.solver.add(c)
                    self.axioms.append(
                        lambda md, c=c: [c] if md == "lin" else []
                    )
            return v
        cache = self.zcache["full"]
        v = cache.get(("m", m))
        if v is not None:
            return v
        v = None
        for i, e in m:
            z = self._zpow(self.atoms[i], e)
            v = z if v is None else v * z
        cache[("m", m)] = v
        return v

    def _zpow(self, at, e):
        z = self.zatom(at, "full")
        if isinstance(e, int):
            if e > 0:
                return _ipow(z, e)
            # reciprocal as a defined variable
            r = self._recip(at)
            return _ipow(r, -e)
        q = e.denominator
        root = self._root(at, q)
        p = e.numerator
        if p > 0:
            return _ipow(root, p)
        r = _zreal("rinv%d_%d" % (at.id, q))
        k = ("rinv", at.id, q)
        if k not in self.zcache["full"]:
            self.zcache["full"][k] = r
            self.full_defs.append(r * root == 1)
            self.full_defs.append(r > 0)
        return _ipow(r, -p)

    def _recip(self, at):
        k = ("inv", at.id)
        r = self.zcache["full"].get(k)
        if r is None:
            r = self.zcache["full"][k] = _zreal("inv!%d" % at.id)
            z = self.zatom(at, "full")
            self.full_defs.append(r * z == 1)
            s = self.sign_of_atom(at)
            if s == POS:
                self.full_defs.append(r > 0)
                self.full_defs.append(z > 0)
        return r

    def _root(self, at, q):
        k = ("root", at.id, q)
        r = self.zcache["full"].get(k)
        if r is None:
            r = self.zcache["full"][k] = _zreal("root!%d_%d" % (at.id, q))
            self.full_defs.append(r > 0)
            if q <= 6:
                self.full_defs.append(_ipow(r, q) == self.zatom(at, "full"))
        return r

    def zpoly(self, t, mode):
        terms = []
        const = 0
        for m, c in t.items():
            if m == ():
                const = c
                continue
            z = self.zmono(m, mode)
            terms.append(z if c == 1 else rv(c) * z)
        if not terms:
            return rv(const)
        if const != 0:
            terms.append(rv(const))
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def zb(self, b, mode):
        if not isinstance(b, SB):
            return z3.BoolVal(bool(b))
        if b.kind == "atom":
            p, rel = b.args
            k = (p.key, rel)
            v = self.zcache[mode].get(k)
            if v is None:
                z = self.zpoly(p.t, mode)
                v = z < 0 if rel == "<" else z <= 0 if rel == "<=" else z == 0
                self.zcache[mode][k] = v
            return v
        if b.kind == "not":
            return z3.Not(self.zb(b.args[0], mode))
        xs = [self.zb(x, mode) for x in b.args]
        return z3.And(xs) if b.kind == "and" else z3.Or(xs)

    def _axiom(self, fn):
        self.axioms.append(fn)
        for c in fn("lin"):
            self.solver.add(c)

    def _define(self, at):
        kind = at.kind
        s = _zsign(self.zatom(at, "lin"), at.sign)
        if s is not None:
            self._axiom(lambda md: [s])
        if kind == "floor":
            p = at.args[0]
            kz = self.zatom(at, "lin")
            self._axiom(
                lambda md: [
                    kz <= self.zpoly(p.t, md),
                    self.zpoly(p.t, md) < kz + 1,
                ]
            )
            self.model = None
        elif kind == "rint":
            p = at.args[0]
            kz = self.zatom(at, "lin")
            half = z3.RealVal("1/2")

            def ax(md):
                x = self.zpoly(p.t, md)
                return [
                    kz - half <= x,
                    x <= kz + half,
                    z3.Implies(
                        z3.Or(x == kz - half, x == kz + half), kz == 2 * z3.ToReal(_zint(at.name + "h"))
                    ),
                ]

            self._axiom(ax)
            # rounding is monotone (saves the solver an integer search)
            peers = [o for o in self.atoms if o.kind == "rint"
                     and o is not at][-8:]

            def mono(md):
                x = self.zpoly(p.t, md)
                r = []
                for o in peers:
                    y = self.zpoly(o.args[0].t, md)
                    ko = self.zatom(o, md)
                    r.append(z3.Implies(x <= y, kz <= ko))
                    r.append(z3.Implies(y <= x, ko <= kz))
                return r

            self._axiom(mono)
            self.model = None
        elif kind in ("min", "max"):
            z = self.zatom(at, "lin")

            def ax(md):
                xs = [self.zpoly(a.t, md) for a in at.args]
                return [z <= x if kind == "min" else z >= x for x in xs] + [
                    z3.Or([z == x for x in xs])
                ]

            self._axiom(ax)
            self.model = None
        elif kind in ("f32", "f16"):
            # nearest number of the shorter format: right to half a unit
            p = at.args[0]
            z = self.zatom(at, "lin")
            u = z3.RealVal("1/%d" % (2 ** (24 if kind == "f32" else 11)))

            def ax(md):
                x = self.zpoly(p.t, md)
                return [z3.If(x >= 0, z3.And(z >= x - x * u, z <= x + x * u),
                              z3.And(z <= x - x * u, z >= x + x * u))]

            self._axiom(ax)
            self.model = None
        elif kind == "poly":
            p = at.args[0]
            z = self.zatom(at, "lin")
            self._axiom(lambda md: [z == self.zpoly(p.t, md)])
            self.model = None
        elif kind == "exp":
            z = self.zatom(at, "lin")
            p = at.args[0]
            others = [o for o in self.exps if o is not at]

            def ax(md):
                x = self.zpoly(p.t, md)
                r = [z >= x + 1, (x > 0) == (z > 1), (x == 0) == (z == 1)]
                for o in others:
                    y = self.zpoly(o.args[0].t, md)
                    w = self.zatom(o, md)
                    r.append((x < y) == (z < w))
                    r.append((x == y) == (z == w))
                return r

            self._axiom(ax)
            self.model = None
        elif kind == "log":
            base = self.atoms[at.args[0]]
            z = self.zatom(at, "lin")
            x = self.zatom(base, "lin")
            others = list(self.logs)
            self.logs.append(at)

            def ax(md):
                r = [z <= x - 1, (x > 1) == (z > 0), (x == 1) == (z == 0)]
                for o in others:
                    y = self.zatom(self.atoms[o.args[0]], md)
                    w = self.zatom(o, md)
                    r.append((x < y) == (z < w))
                    r.append((x == y) == (z == w))
                return r

            self._axiom(ax)
            self.model = None
        elif kind in ("sin", "cos"):
            z = self.zatom(at, "lin")
            other = self.intern.get(
                ("cos" if kind == "sin" else "sin", (at.args[0].key,))
            )

            def ax(md):
                r = [z <= 1, z >= -1]
                if other is not None and md == "full":
                    w = self.zatom(other, md)
                    r.append(z * z + w * w == 1)
                return r

            self._axiom(ax)
            self.model = None

    # -------------------------------------------------------------- deciding
    def ev3(self, b):
        """three valued evaluation from known facts"""
        if not isinstance(b, SB):
            return bool(b)
        if b.kind == "atom":
            p, rel = b.args
            return sym._sign_rel(self.sign_of_poly(p.t), rel)
        if b.kind == "not":
            r = self.ev3(b.args[0])
            return None if r is None else not r
        vals = [self.ev3(x) for x in b.args]
        if b.kind == "and":
            if any(v is False for v in vals):
                return False
            return True if all(v is True for v in vals) else None
        if any(v is True for v in vals):
            return True
        return False if all(v is False for v in vals) else None

    def learn(self, b, val):
        """record the consequences of b == val"""
        if not isinstance(b, SB):
            return
        if b.kind == "not":
            return self.learn(b.args[0], not val)
        if b.kind == "and":
            if val:
                for x in b.args:
                    self.learn(x, True)
            return
        if b.kind == "or":
            if not val:
                for x in b.args:
                    self.learn(x, False)
            return
        p, rel = b.args
        mask = {"<": NEG, "<=": NEG | ZERO, "==": ZERO}[rel]
        if not val:
            mask = 7 & ~mask
        k, fl = self._canon(p.t)
        if fl:
            mask = sym._flip(mask)
        self.facts[k] = self.facts.get(k, 7) & mask

    def assert_(self, b, val):
        self.pc.append(b if val else sym.sb_not(b))
        self.learn(b, val)
        z = self.zb(b, "lin")
        self.solver.add(z if val else z3.Not(z))

    def _check(self, *extra):
        t0 = time.time()
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def _ensure_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathEnd("infeasible")
            self.model = m
            if m is None:
                return False
        return True

    def _next(self):
        self.stats.decisions += 1
        if len(self.trace) > self.max_dec:
            raise PathLimit("too many decisions")
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("deadline")

    def decide(self, b):
        r = self.ev3(b)
        if r is not None:
            return r
        self._next()
        i = len(self.trace)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            assert kind == "b", "non deterministic re-execution"
            self.trace.append((kind, val))
            self.assert_(b, val)
            self.model = None
            return val
        z = self.zb(b, "lin")
        val = None
        if self._ensure_model():
            v = self.model.eval(z, model_completion=True)
            if z3.is_true(v):
                val = True
            elif z3.is_false(v):
                val = False
        if val is None:
            rt, mt = self._check(z)
            if rt == z3.unsat:
                val, other_ok = False, False
                self.trace.append(("b", False))
                self.assert_(b, False)
                self.model = None
                return False
            val = True
            self.model = mt
        r, m = self._check(z3.Not(z) if val else z)
        if r != z3.unsat:
            self.pending.append(self.trace + [("b", not val)])
        self.trace.append(("b", val))
        self.assert_(b, val)
        return val

    def enum_int(self, a):
        if a.is_const():
            return int(a.const())
        self._next()
        i = len(self.trace)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            if kind == "v":
                self.trace.append((kind, val))
                self.assert_(_eq_const(a, val), True)
                self.model = None
                return val
            assert kind == "x", "non deterministic re-execution"
            # excluded values so far
            excl = val
        else:
            excl = ()
        # not a replayed choice: pick a value outside excl
        for v in excl:
            self.assert_(_eq_const(a, v), False)
        if excl:
            self.model = None
        if not self._ensure_model():
            raise sym.Unsupported("cannot enumerate integer value")
        z = self.zpoly(a.t, "lin")
        v = self.model.eval(z, model_completion=True)
        val = _z2f(v)
        val = int(val)
        if len(excl) > self.opts.get("max_values", 200):
            raise PathLimit("too many values")
        ez = z != rv(val)
        r, m = self._check(ez)
        if r != z3.unsat:
            self.pending.append(self.trace + [("x", excl + (val,))])
        self.trace.append(("v", val))
        b = _eq_const(a, val)
        if isinstance(b, SB):
            self.assert_(b, True)
        return val

    def concretise(self, a):
        """value of a under a model; the path is then only a sample"""
        if a.is_const():
            return a.const()
        self.partial = True
        self._next()
        i = len(self.trace)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            assert kind == "c"
        else:
            if not self._ensure_model():
                raise sym.Unsupported("cannot concretise")
            val = _z2f(
                self.model.eval(self.zpoly(a.t, "lin"), model_completion=True)
            )
        self.trace.append(("c", val))
        b = _eq_const(a, val)
        if isinstance(b, SB):
            self.assert_(b, True)
            self.model = None
        return val

    def assume(self, b):
        if not isinstance(b, SB):
            if not b:
                raise PathEnd("assume")
            return
        r = self.ev3(b)
        if r is True:
            return
        if r is False:
            raise PathEnd("assume")
        self.assert_(b, True)
        self.model = None
        if len(self.trace) >= len(self.prefix):
            r, m = self._check()
            if r == z3.unsat:
                raise PathEnd("assume")
            self.model = m

    # ------------------------------------------------------------- verdicts
    def prove(self, conds, timeout_ms, extra=()):
        """conds: list of SB that must hold.  -> (verdict, model, mode)
        verdict: 'holds' | 'violated' | 'unknown'"""
        neg = []
        for c in conds:
            if isinstance(c, SB):
                neg.append(sym.sb_not(c))
            elif not c:
                neg.append(True)
        if not neg:
            return "holds", None
        bad = sym.sb_or(*neg)
        r, m = self._check(self.zb(bad, "lin"))
        if r == z3.unsat:
            return "holds", None
        exact = not self.nonlinear and not any(
            a.kind in sym.INEXACT
            for a in self.atoms
        )
        if exact:
            if r == z3.sat:
                return "violated", m
            return "unknown", None
        s, zbad = self.full_solver(bad, timeout_ms)
        t0 = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == z3.unsat:
            return "holds", None
        if r == z3.sat:
            return "violated", s.model()
        self.stats.unknown += 1
        return "unknown", m

    def full_solver(self, bad=None, timeout_ms=20000):
        self.full_defs = []
        self.zcache["full"] = {}
        cs = [self.zb(b, "full") for b in self.pc]
        if bad is not None:
            cs.append(self.zb(bad, "full"))
        for ax in list(self.axioms):
            cs.extend(ax("full"))
        cs.extend(self.full_defs)
        s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        for c in cs:
            s.add(c)
        return s, None


def _eq_const(a, v):
    return sym.compare("==", a, v)


def _ipow(z, n):
    r = z
    for _ in range(n - 1):
        r = r * z
    return r


def _zsign(v, s):
    if s == POS:
        return v > 0
    if s == NEG:
        return v < 0
    if s == (POS | ZERO):
        return v >= 0
    if s == (NEG | ZERO):
        return v <= 0
    if s == ZERO:
        return v == 0
    if s == (POS | NEG):
        return v != 0
    return None


def _z2f(v):
    """z3 numeral -> Fraction"""
    if z3.is_int_value(v):
        return F(v.as_long())
    if z3.is_rational_value(v):
        return F(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return _z2f(v.approx(30))
    raise sym.Unsupported("no numeric value")
