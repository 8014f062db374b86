"""C31: generated signals for testing."""
import warnings

from engine.case import Case

FUNCTIONS = ["testing.get_sampled_time", "testing.get_random_data"]
ASSUMPTIONS = ["the random generator is replaced by arbitrary draws that "
               "depend on the seed only (and are not all equal)",
               "durations are not within 1e-3 of a sampling period from a "
               "whole number of periods, except the exact ones"]

warnings.simplefilter("ignore")


class Draws:
    """stands in for np.random: the seed picks the draws"""

    def __init__(self, ctx, by_seed):
        self.ctx, self.by_seed, self.now, self.calls = ctx, by_seed, None, []

    def default_rng(self, seed=None):
        if isinstance(seed, Draws):
            return seed
        g = Draws(self.ctx, self.by_seed)
        g.now, g.calls = seed, self.calls
        return g

    RandomState = Generator = PCG64 = SeedSequence = default_rng

    def seed(self, seed=None):
        self.now = seed

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def draw(*a, size=None, **kw):
            self.calls.append((name, a, kw, size))
            return self.ctx.array(self.by_seed[self.now])
        return draw


def times(ctx, fs, top, start=None):
    """evenly spaced times over the requested duration"""
    from py_fatigue.testing import get_sampled_time

    if fs == "any":
        fs = ctx.pos("fs", 0.5, 4.0, log=False)
        d = float(top) / 4.0
    else:
        d = ctx.real("d", lo=0.0, hi=top / fs)
    t0 = ctx.real("t0", lo=0.0, hi=100.0) if start is None else start
    n, whole = d * fs, 0
    for k in range(0, top + 1):
        if bool(n >= k + 1e-3):
            whole = k + 1
    ctx.assume(abs(n - whole) >= 1e-3)
    if whole < 2:
        ctx.raises("short", ValueError, get_sampled_time, fs, d, t0)
        ctx.reach("short")
        return
    if start == 0.0:
        t = get_sampled_time(fs, d)
    else:
        t = get_sampled_time(fs=fs, duration=d, start=t0)
    t = list(t)
    ctx.check("n", len(t) == whole)
    for i, x in enumerate(t):
        ctx.eq("at", x, t0 + i / fs)
    ctx.le("within", t[-1], t0 + d)
    ctx.le("lasts", t0 + d, t[-1] + 1 / fs)
    ctx.reach("times")


def exact(ctx, fs, top):
    """a whole number of periods gives that many samples"""
    from py_fatigue.testing import get_sampled_time

    k = ctx.int("k", 1, top)
    t0 = ctx.int("t0", 0, 3)
    t = list(get_sampled_time(fs, k / fs, float(t0)))
    ctx.check("n", len(t) == k)
    for i, x in enumerate(t):
        ctx.eq("at", x, t0 + i / fs)
    ctx.reach("exact")


def refused(ctx, what):
    from py_fatigue.testing import get_sampled_time

    v = {"fs": ctx.real("fs", lo=0.1, hi=100.0),
         "duration": ctx.real("d", lo=10.0, hi=100.0),
         "start": ctx.real("t0", lo=0.0, hi=100.0)}
    v[what] = ctx.real("bad", lo=-100.0, hi=0.0 if what == "fs" else -1e-9)
    if what == "duration":
        v["fs"] = 1.0
    ctx.raises("bad", ValueError, lambda: get_sampled_time(**v))
    ctx.reach("refused")


def data(ctx, n, span=None, kind="normal", args=(), low=None):
    """n values from min_ to min_ + range_, in the shape of the draws"""
    import numpy as np
    from py_fatigue.testing import get_random_data

    d = ctx.reals("d", n, lo=-100.0, hi=100.0)
    e = ctx.reals("e", n, lo=-100.0, hi=100.0)
    least, most = d[0], d[0]
    for x in d[1:]:
        least = x if bool(x < least) else least
        most = x if bool(x > most) else most
    ctx.assume(most - least >= 1e-2)
    ctx.assume(abs(e[0] - e[1]) >= 1e-2)
    kw = dict(args)
    lo, width = -10.0, 50.0
    if low is None:
        lo = kw["min_"] = ctx.real("lo", lo=-1e3, hi=1e3)
    if span is not None:
        width = kw["range_"] = ctx.real("w", lo=span[0], hi=span[1])
    seed = 2
    if ctx.bool("seeded"):
        seed = kw["seed"] = ctx.int("seed", 0, 3)
    if kind != "normal" or ctx.bool("named"):
        kw["random_type"] = kind
    stub = Draws(ctx, {None: e, 0: e, 1: e, 2: e, 3: e})
    stub.by_seed[seed] = d
    t = np.arange(n) * 0.25
    with ctx.rng(stub):
        y = get_random_data(t, **kw)
    y = list(y)
    ctx.check("n", len(y) == n)
    name, _, given, _ = stub.calls[-1]
    ctx.check("kind", name == kind)
    ctx.check("args", given == dict(args))
    for x, v in zip(d, y):
        ctx.eq("shape", (v - lo) * (most - least), (x - least) * width)
        if bool(x <= least):
            ctx.eq("min", v, lo)
        if bool(x >= most):
            ctx.eq("max", v, lo + width)
    ctx.reach("data")


def again(ctx, n):
    """the same seed gives the same data, whatever was drawn in between"""
    import numpy as np
    from py_fatigue.testing import get_random_data

    d = ctx.reals("d", n, lo=-100.0, hi=100.0)
    e = ctx.reals("e", n, lo=-100.0, hi=100.0)
    for v in (d, e):
        ctx.assume(abs(v[0] - v[1]) >= 1e-2)
    stub = Draws(ctx, {None: e, 5: d, 6: e})
    t = np.arange(n) * 1.0
    with ctx.rng(stub):
        a = get_random_data(t, seed=5, min_=0.0, range_=1.0)
        b = get_random_data(t, seed=6, min_=0.0, range_=1.0)
        c = get_random_data(t, seed=5, min_=0.0, range_=1.0)
    ctx.eq_list("same", list(a), list(c))
    ctx.check("n", len(b) == n)
    ctx.reach("again")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=(), **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    T = ("times", "short")
    for fs in (1, 4, 10.0, 0.1):
        add("time_%s" % fs, times, T, fs=fs, top=8)
        add("zero_%s" % fs, times, T, fs=fs, top=8, start=0.0)
    add("time_any", times, T, fs="any", top=6)
    add("exact4", exact, ("exact",), fs=4, top=12)
    add("exact1", exact, ("exact",), fs=1.0, top=12)
    for w in ("fs", "duration", "start"):
        add("bad_" + w, refused, ("refused",), what=w)
    D = ("data",)
    add("d2", data, D, n=2)
    add("d3", data, D, n=3, low=0)
    add("d3w", data, D, n=3, span=(0.01, 1e3), low=0)
    add("d3lw", data, D, n=3, span=(0.01, 1e3))
    add("d4", data, D, n=4, span=(1.0, 100.0))
    add("uniform", data, D, n=3, kind="uniform",
        args=(("low", 1.0), ("high", 3.0)))
    add("weibull", data, D, n=2, kind="weibull", args=(("a", 2.0),))
    add("again", again, ("again",), n=2)
    add("again3", again, ("again",), n=3)
    if big:
        for fs in (3, 25.0):
            add("time_%s" % fs, times, T, fs=fs, top=40)
        add("time_any2", times, T[:1], fs="any", top=16)
        add("d5", data, D, n=5, span=(0.01, 1e3))
        add("d6", data, D, n=6, span=(0.01, 1e3))
        add("again4", again, ("again",), n=4)
    return cs
