"""The two faces of a harness context: symbolic (SymCtx) and concrete
(ConcCtx).  A harness draws its inputs from the context, calls the public API
of the code under test and states what must hold."""
from __future__ import annotations

import contextlib
import itertools
import math
import time
from unittest import mock

import numpy as np

REL = 1e-6
ABS = 1e-6


def _isnum(x):
    return isinstance(x, (int, float, np.number, np.bool_))


class Base:
    symbolic = False

    # -- conveniences common to both modes
    def reals(self, name, n, **k):
        return [self.real("%s%d" % (name, i), **k) for i in range(n)]

    def eq_list(self, label, a, b, **k):
        a, b = list(a), list(b)
        self.check(label + ":len", len(a) == len(b))
        if len(a) != len(b):
            return
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq("%s[%d]" % (label, i), x, y, **k)

    def unchanged(self, label, before, after):
        """identity-level comparison of snapshots made with snap()"""
        self.eq_list(label, before, after)

    def snap(self, a):
        return [x for x in np.asarray(a, dtype=object).ravel()]

    def infinite(self, a):
        return _isnum(a) and bool(np.isinf(a))

    def log10(self, a):
        return self.log(a) / math.log(10.0)


class Diverged(Exception):
    """the run asks for an input the symbolic path never drew"""


class ConcCtx(Base):
    """Runs a harness on concrete inputs against the real code."""

    def __init__(self, inputs, tol=0.5):
        self.inputs = inputs
        self.fails = []
        self.obs = []
        self.reached = set()
        self.tol = tol  # fraction of the symbolic margin

    def _get(self, name):
        if name not in self.inputs:
            raise Diverged(name)
        return self.inputs[name]

    def real(self, name, lo=None, hi=None, log=False, **k):
        v = float(self._get(name))
        if lo is not None and v < lo - 1e-9 * abs(lo):
            raise Assume(name)
        if hi is not None and v > hi + 1e-9 * abs(hi):
            raise Assume(name)
        if lo is not None:
            v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        return v

    def pos(self, name, lo=1e-3, hi=1e6, log=True):
        return self.real(name, lo, hi)

    def int(self, name, lo, hi):
        v = self._get(name)
        if v < lo or v > hi:
            raise Assume(name)
        return int(v)

    def whole(self, name, lo, hi):
        return self.int(name, lo, hi)

    def int_array(self, vals):
        return np.array([int(v) for v in vals], dtype=np.int64)

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def assume(self, c):
        if not bool(c):
            raise Assume("assume")

    def array(self, vals, shape=None):
        a = np.array([float(v) for v in vals], dtype=float)
        return a if shape is None else a.reshape(shape)

    def log(self, a):
        return math.log(a)

    def exp(self, a):
        return math.exp(a)

    def matching(self, label, A, B, **k):
        A = sorted([tuple(float(x) for x in r) for r in A])
        B = sorted([tuple(float(x) for x in r) for r in B])
        self.check(label + ":len", len(A) == len(B))
        if len(A) != len(B):
            return
        # greedy matching with tolerance
        left = list(B)
        for r in A:
            for s in left:
                if all(
                    self._close(x, y, k.get("rel", REL), k.get("abs_", ABS))
                    for x, y in zip(r, s)
                ):
                    left.remove(s)
                    break
            else:
                self.fails.append(label)
                return

    def _close(self, a, b, rel, abs_):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= self.tol * (abs_ + rel * abs(b))

    def eq(self, label, a, b, rel=REL, abs_=ABS):
        if not _isnum(a) or not _isnum(b):
            if isinstance(a, np.ndarray) and a.ndim == 0:
                a = a[()]
            if isinstance(b, np.ndarray) and b.ndim == 0:
                b = b[()]
            if not _isnum(a) or not _isnum(b):
                if not (a is b or bool(a == b)):
                    self.fails.append(label)
                return
        self.obs.append((label, float(a)))
        if not self._close(a, b, rel, abs_):
            self.fails.append(label)

    def le(self, label, a, b, rel=REL, abs_=ABS):
        a, b = float(a), float(b)
        self.obs.append((label, a))
        if math.isnan(a) or math.isnan(b):
            self.fails.append(label)
            return
        if math.isinf(b) and b > 0:
            return
        if math.isinf(a) and a < 0:
            return
        if not a <= b + self.tol * (abs_ + rel * abs(b)):
            self.fails.append(label)

    def check(self, label, cond):
        if not bool(cond):
            self.fails.append(label)

    def holds(self, label, *conds):
        """disjunction of conditions"""
        if not any(bool(c) for c in conds):
            self.fails.append(label)

    # conditions usable inside holds()
    def close(self, a, b, rel=REL, abs_=ABS):
        return self._close(a, b, rel, abs_)

    def both(self, *c):
        return all(bool(x) for x in c)

    def either(self, *c):
        return any(bool(x) for x in c)

    def note(self, label, v):
        self.obs.append((label, float(v)))

    def reach(self, label):
        self.reached.add(label)

    @contextlib.contextmanager
    def rng(self, stub):
        """np.random is the stub within the block"""
        with mock.patch.object(np, "random", stub):
            yield

    def raises(self, label, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        self.fails.append(label)
        return False


class Assume(BaseException):
    pass


# --------------------------------------------------------------------------


class SymCtx(Base):
    symbolic = True

    def __init__(self, st):
        from . import npshim, sym

        self.sym = sym
        self.npshim = npshim
        self.st = st
        self.inputs = {}  # name -> (kind, atom or value)
        self.bounds = {}  # name -> (lo, hi)
        self.conds = []
        self.obs = []
        self.reached = set()
        self.n_assert = 0

    @contextlib.contextmanager
    def rng(self, stub):
        self.st.rng_stub = stub
        try:
            yield
        finally:
            self.st.rng_stub = None

    def real(self, name, lo=None, hi=None, log=False, **k):
        sym, st = self.sym, self.st
        assert name not in self.inputs, name
        sign = 7
        if lo is not None and lo > 0:
            sign = sym.POS
        elif lo is not None and lo == 0:
            sign = sym.POS | sym.ZERO
        elif hi is not None and hi < 0:
            sign = sym.NEG
        at = st.atom("var", (name,), sign, name=name)
        v = sym.SR({((at.id, 1),): 1})
        self.inputs[name] = ("real", at)
        self.bounds[name] = (lo, hi)
        if lo is not None:
            st.assume(v >= lo)
        if hi is not None:
            st.assume(v <= hi)
        if log:
            lg = sym.SR({((st.log_atom(at).id, 1),): 1})
            if lo is not None and lo > 0:
                st.assume(lg >= math.log(lo) - 1e-12)
            if hi is not None and hi > 0:
                st.assume(lg <= math.log(hi) + 1e-12)
        return v

    def pos(self, name, lo=1e-3, hi=1e6, log=True):
        return self.real(name, lo, hi, log=log)

    def int(self, name, lo, hi):
        """integer input: forks over its values"""
        sym, st = self.sym, self.st
        if lo == hi:
            self.inputs[name] = ("const", lo)
            return lo
        at = st.atom("var", (name,), 7, isint=True, name=name)
        v = sym.SR({((at.id, 1),): 1}, True)
        self.inputs[name] = ("int", at)
        st.assume(v >= lo)
        st.assume(v <= hi)
        return sym.enum_int(v)

    def whole(self, name, lo, hi):
        """integer input kept symbolic"""
        sym, st = self.sym, self.st
        at = st.atom("var", (name,), 7, isint=True, name=name)
        v = sym.SR({((at.id, 1),): 1}, True)
        self.inputs[name] = ("int", at)
        st.assume(v >= lo)
        st.assume(v <= hi)
        return v

    def int_array(self, vals):
        return self.array(vals)

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def assume(self, c):
        if isinstance(c, self.sym.SB):
            self.st.assume(c)
        elif not bool(c):
            self.st.assume(False)

    def array(self, vals, shape=None):
        vals = [v if isinstance(v, self.sym.SR) else np.float64(v)
                for v in vals]
        b = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            b[i] = v
        b = b.view(self.npshim.SymArray)
        return b if shape is None else b.reshape(shape)

    def log(self, a):
        return self.sym.s_log(a) if isinstance(a, self.sym.SR) else \
            math.log(a)

    def exp(self, a):
        return self.sym.s_exp(a) if isinstance(a, self.sym.SR) else \
            math.exp(a)

    # -- assertions
    def _close(self, a, b, rel, abs_):
        sym = self.sym
        if isinstance(a, sym.SB):
            a = sym.sb_num(a)
        if isinstance(b, sym.SB):
            b = sym.sb_num(b)
        if not isinstance(a, sym.SR) and not isinstance(b, sym.SR):
            a, b = float(a), float(b)
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            if math.isinf(a) or math.isinf(b):
                return a == b
            return abs(a - b) <= abs_ + rel * abs(b)
        for x in (a, b):
            if not isinstance(x, sym.SR) and not math.isfinite(x):
                return False
        d = a - b
        if not isinstance(d, sym.SR):
            if not isinstance(b, sym.SR):
                return abs(float(d)) <= abs_ + rel * abs(float(b))
            if float(d) == 0:
                return True
        tp = b * rel + abs_
        tm = b * (-rel) + abs_
        sg = self.st.sign_of_poly(sym.lift(b).t)
        if sg in (sym.POS, sym.POS | sym.ZERO, sym.ZERO):
            return self._band(d, tp)
        if sg in (sym.NEG, sym.NEG | sym.ZERO):
            return self._band(d, tm)
        return sym.sb_or(self._band(d, tp), self._band(d, tm))

    def _band(self, d, t):
        sym = self.sym
        return sym.sb_and(
            sym.compare("<=", d, t), sym.compare(">=", d, -t)
        )

    def eq(self, label, a, b, rel=REL, abs_=ABS):
        sym = self.sym
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        ok = (
            lambda x: isinstance(x, (sym.SR, sym.SB)) or _isnum(x)
        )
        if not ok(a) or not ok(b):
            self._add(label, a is b or bool(a == b))
            return
        self.obs.append((label, a))
        self._add(label, self._close(a, b, rel, abs_))

    def le(self, label, a, b, rel=REL, abs_=ABS):
        sym = self.sym
        self.obs.append((label, a))
        na, nb = isinstance(a, sym.SR), isinstance(b, sym.SR)
        if not na and not nb:
            a, b = float(a), float(b)
            if math.isinf(a) or math.isinf(b) or a != a or b != b:
                self._add(label, a <= b)
            else:
                self._add(label, a <= b + abs_ + rel * abs(b))
            return
        if not na and not math.isfinite(a):
            self._add(label, float(a) == -math.inf)
            return
        if not nb and not math.isfinite(b):
            self._add(label, float(b) == math.inf)
            return
        c1 = sym.compare("<=", a, b + (b * rel + abs_))
        c2 = sym.compare("<=", a, b + (b * (-rel) + abs_))
        self._add(label, sym.sb_or(c1, c2))

    def _add(self, label, c):
        self.n_assert += 1
        self.conds.append((label, c))

    def check(self, label, cond):
        sym = self.sym
        if isinstance(cond, sym.SR):
            cond = cond != 0
        self._add(label, cond if isinstance(cond, sym.SB) else bool(cond))

    def holds(self, label, *conds):
        self._add(label, self.sym.sb_or(*conds))

    def close(self, a, b, rel=REL, abs_=ABS):
        return self._close(a, b, rel, abs_)

    def both(self, *c):
        return self.sym.sb_and(*c)

    def either(self, *c):
        return self.sym.sb_or(*c)

    def note(self, label, v):
        self.obs.append((label, v))

    def reach(self, label):
        self.reached.add(label)

    def raises(self, label, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        self._add(label, False)
        return False

    def matching(self, label, A, B, rel=REL, abs_=ABS):
        """A and B are equal as multisets of tuples"""
        sym = self.sym
        A = [tuple(r) for r in A]
        B = [tuple(r) for r in B]
        self._add(label + ":len", len(A) == len(B))
        if len(A) != len(B):
            return

        def same(r, s):
            for x, y in zip(r, s):
                if isinstance(x, sym.SR) and isinstance(y, sym.SR):
                    if x.key != y.key:
                        return False
                elif isinstance(x, sym.SR) or isinstance(y, sym.SR):
                    return False
                elif not abs(float(x) - float(y)) <= 1e-9:
                    return False
            return True

        left = list(B)
        rest = []
        for r in A:
            for i, s in enumerate(left):
                if same(r, s):
                    del left[i]
                    break
            else:
                rest.append(r)
        if not rest:
            self._add(label, True)
            return

        def close(r, s):
            return sym.sb_and(
                *[self._close(x, y, rel, abs_) for x, y in zip(r, s)]
            )

        n = len(rest)
        if n <= 3:
            alts = []
            for perm in itertools.permutations(range(n)):
                alts.append(
                    sym.sb_and(*[close(rest[i], left[j]) for i, j in
                                 enumerate(perm)])
                )
            self._add(label, sym.sb_or(*alts))
            return
        # necessary condition: counting close partners both ways
        for i, r in enumerate(rest):
            self._add(label, sym.sb_or(*[close(r, s) for s in left]))
        for s in left:
            self._add(label, sym.sb_or(*[close(r, s) for r in rest]))


# ----------------------------------------------------- numeric evaluation


def follows(st, env, memo):
    """these inputs take this path, evaluated without abstraction"""
    from . import sym

    def val(b):
        if not isinstance(b, sym.SB):
            return bool(b)
        if b.kind == "atom":
            v = evalf(st, b.args[0], env, memo)
            rel = b.args[1]
            return v < 0 if rel == "<" else v <= 0 if rel == "<=" else v == 0
        if b.kind == "not":
            return not val(b.args[0])
        if b.kind == "and":
            return all(val(x) for x in b.args)
        return any(val(x) for x in b.args)

    try:
        return all(val(b) for b in st.pc)
    except (ValueError, OverflowError, ZeroDivisionError, KeyError,
            TypeError):
        return False


def distance(st, b, env, memo, neg=False):
    """how far these inputs are from satisfying b (0: satisfied)"""
    from . import sym

    if not isinstance(b, sym.SB):
        return float(bool(b) == neg)
    if b.kind == "not":
        return distance(st, b.args[0], env, memo, not neg)
    if b.kind == "atom":
        p, rel = b.args[0], b.args[1]
        v = evalf(st, p, env, memo)
        if neg:
            if rel == "==":
                return float(v == 0)
            ok = v >= 0 if rel == "<" else v > 0
        else:
            ok = v < 0 if rel == "<" else v <= 0 if rel == "<=" else v == 0
        if ok:
            return 0.0
        big = abs(float(p.t.get((), 0)))
        for m, c in p.t.items():
            big = max(big, abs(evalf(st, sym.SR({m: c}), env, memo)))
        return 1e-9 + abs(v) / (big or 1.0)
    parts = [distance(st, x, env, memo, neg) for x in b.args]
    return sum(parts) if (b.kind == "and") != neg else min(parts)


def improve(st, ctx, bad, seeds, rng, secs=1.0, want=3):
    """inputs near the seeds that take this path and fail, found by local
    search on the exact (unabstracted) terms"""
    names = [(n, at) for n, (k, at) in ctx.inputs.items() if k == "real"]
    if not names:
        return []
    conds = list(st.pc) + ([bad] if bad is not None else [])

    def cost(env):
        memo = {}
        try:
            return sum(distance(st, b, env, memo) for b in conds)
        except (ValueError, OverflowError, ZeroDivisionError, KeyError,
                TypeError):
            return 1e9

    def fit(n, v):
        lo, hi = ctx.bounds.get(n, (None, None))
        v = v if lo is None else max(v, lo)
        return v if hi is None else min(v, hi)

    end, found = time.time() + secs, []
    seeds = [{n: fit(n, v) if n in ctx.bounds else v for n, v in s.items()}
             for s in seeds]
    while time.time() < end and len(found) < want:
        cur = dict(rng.choice(seeds))
        c = cost(cur)
        step = 1.0
        for _ in range(200):
            if c == 0 or time.time() > end:
                break
            new = dict(cur)
            for n, at in rng.sample(names, min(len(names),
                                               rng.choice((1, 1, 2, 3)))):
                lo, hi = ctx.bounds[n]
                if rng.random() < 0.15 and lo is not None and hi is not None:
                    v = (math.exp(rng.uniform(math.log(lo), math.log(hi)))
                         if lo > 0 and hi > 10 * lo else rng.uniform(lo, hi))
                elif new[n] > 0 and lo is not None and lo > 0:
                    v = new[n] * math.exp(rng.gauss(0, step))
                else:
                    v = new[n] + rng.gauss(0, step) * (1 + abs(new[n]))
                new[n] = fit(n, v)
            d = cost(new)
            if d <= c:
                cur, c = new, d
                step = min(2.0, step * 1.3)
            else:
                step = max(1e-4, step * 0.9)
        if c == 0 and cur not in found:
            found.append(cur)
    return found


def on_edge(st, env, memo):
    """a decision of the path, or a rounding, hangs on less than rounding
    error at these inputs"""
    from . import sym

    def near(p):
        try:
            v = evalf(st, p, env, memo)
            big = sum(abs(float(c)) for c in p.t.values())
        except (ValueError, OverflowError, ZeroDivisionError, KeyError,
                TypeError):
            return True
        return abs(v) <= 1e-9 * (1 + big)

    def visit(b):
        if not isinstance(b, sym.SB):
            return False
        if b.kind == "atom":
            return near(b.args[0])
        return any(visit(x) for x in b.args)

    if any(visit(b) for b in st.pc):
        return True
    for at in st.atoms:
        if at.kind in ("floor", "rint"):
            try:
                v = evalf(st, at.args[0], env, memo)
            except (ValueError, OverflowError, ZeroDivisionError, KeyError,
                    TypeError):
                return True
            if at.kind == "rint":
                v += 0.5
            if abs(v - round(v)) < 1e-9:
                return True
    return False


def evalf(st, x, env, memo=None):
    """float value of a symbolic number under {input name: value}"""
    from . import sym

    memo = {} if memo is None else memo
    if isinstance(x, sym.SB):
        return None
    if not isinstance(x, sym.SR):
        return float(x)

    def atom(i):
        if i in memo:
            return memo[i]
        at = st.atoms[i]
        k = at.kind
        if k == "var":
            v = float(env[at.name])
        elif k == "log":
            v = math.log(atom(at.args[0]))
        elif k in ("min", "max"):
            v = (min if k == "min" else max)(poly(a.t) for a in at.args)
        else:
            a = poly(at.args[0].t)
            if k == "poly":
                v = a
            elif k == "floor":
                v = float(math.floor(a + 1e-12))
            elif k == "rint":
                v = float(round(a))
            elif k == "exp":
                v = math.exp(a)
            elif k in ("f32", "f16"):
                v = float(sym.FMT[k](a))
            elif k == "arcsin":
                v = math.asin(max(-1.0, min(1.0, a)))
            elif k == "arctan":
                v = math.atan(a)
            else:
                v = getattr(math, k)(a)
        memo[i] = v
        return v

    def poly(t):
        s = 0.0
        for m, c in t.items():
            p = float(c)
            for i, e in m:
                p *= atom(i) ** (e if isinstance(e, int) else float(e))
            s += p
        return s

    return poly(x.t)
