"""C32: Gassner shift factors."""
from engine.case import Case
from harness.c16 import spectrum
from harness.counts import relabel, stamp
from harness.curves import sn_curve
from harness.warm import also

FUNCTIONS = ["damage.stress_life.Gassner.g",
             "damage.stress_life.Gassner._validate",
             "cycle_count.CycleCount.to_df", "material.SNCurve.linear"]
ASSUMPTIONS = ["slopes from a grid; ranges and counts arbitrary within the "
               "bounds"]


def frame(ctx, s, c, route):
    import numpy as np
    import pandas as pd
    from py_fatigue.cycle_count import CycleCount

    if route == "dfi":
        return relabel(frame(ctx, s, c, "cc"))
    if route == "df":
        return pd.DataFrame({"count_cycle": ctx.array(c),
                             "mean_stress": np.zeros(len(s)),
                             "stress_range": ctx.array(s)})
    return CycleCount(count_cycle=ctx.array(c), stress_range=ctx.array(s),
                      mean_stress=np.zeros(len(s)),
                      timestamp=stamp(0)).to_df()


def largest(s):
    i = 0
    for j in range(1, len(s)):
        if bool(s[j] > s[i]):
            i = j
    return s[i]


def total(v):
    t = 0.0
    for x in v:
        t = t + x
    return t


def shift(ctx, n, slope, route="cc", form="number", counts=None):
    """share of the count times relative amplitude to the slope"""
    sn = sn_curve(ctx, 1, (slope,), form)
    s, c = spectrum(ctx, n, counts is None, counts or ())
    df = frame(ctx, s, c, route)
    out = df.gassner.g(sn.curve)
    f = list(out["shift_factor"])
    ctx.check("n", len(f) == n)
    top, all_ = largest(s), total(c)
    for i in range(n):
        ctx.eq("factor", ctx.log(f[i]),
               ctx.log(c[i]) - ctx.log(all_)
               + slope * (ctx.log(s[i]) - ctx.log(top)))
    ctx.eq_list("ranges", list(out["stress_range"]), s)
    ctx.eq_list("counts", list(out["count_cycle"]), c)
    ctx.reach("shift")


def bounds(ctx, n, slope):
    """between zero and one, and so is the sum"""
    sn = sn_curve(ctx, 1, (slope,))
    s, c = spectrum(ctx, n, False, (0.5, 1.0, 250.0))
    f = list(frame(ctx, s, c, "cc").gassner.g(sn.curve)["shift_factor"])
    for x in f:
        ctx.le("low", 0.0, x)
        ctx.le("high", x, 1.0)
    ctx.le("sum", total(f), 1.0)
    ctx.reach("bounds")


def constant(ctx, n, slope):
    sn = sn_curve(ctx, 1, (slope,))
    s, c = spectrum(ctx, n)
    f = list(frame(ctx, [s[0]] * n, c, "cc").gassner.g(sn.curve)
             ["shift_factor"])
    ctx.eq("one", total(f), 1.0)
    ctx.reach("constant")


def scaled(ctx, n, slope, what):
    """only the shape of the spectrum matters"""
    sn = sn_curve(ctx, 1, (slope,))
    s, c = spectrum(ctx, n)
    k = ctx.pos("k", 0.01, 100.0)
    a = list(frame(ctx, s, c, "cc").gassner.g(sn.curve)["shift_factor"])
    if what == "stress":
        s = [k * x for x in s]
    else:
        c = [k * x for x in c]
    b = list(frame(ctx, s, c, "cc").gassner.g(sn.curve)["shift_factor"])
    for x, y in zip(a, b):
        ctx.eq("same", ctx.log(x), ctx.log(y))
    ctx.reach("scaled")


def bad(ctx, what):
    import pandas as pd

    s, c = spectrum(ctx, 2)
    if what == "bent":
        sn = sn_curve(ctx, 2, (3, 5))
        df = frame(ctx, s, c, "cc")
        ctx.raises("bent", AssertionError, lambda: df.gassner.g(sn.curve))
    elif what == "twice":
        sn = sn_curve(ctx, 1, (3,))
        out = frame(ctx, s, c, "cc").gassner.g(sn.curve)
        ctx.raises("twice", AttributeError,
                   lambda: pd.DataFrame(out).gassner)
    else:
        df = frame(ctx, s, c, "df").drop(columns=[what])
        ctx.raises("missing", AttributeError, lambda: df.gassner)
    ctx.reach("bad")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=(), **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    S = ("shift",)
    for m in (3, 4.5, 1):
        add("cc2_%s" % m, shift, S, n=2, slope=m)
        add("df2_%s" % m, shift, S, n=2, slope=m, route="df", form="list")
    add("cc1", shift, S, n=1, slope=3)
    add("cc3", shift, S, n=3, slope=3)
    add("cc4", shift, S, n=4, slope=5, counts=(0.5, 1.0))
    add("dfi3", shift, S, n=3, slope=3, route="dfi")
    add("df3", shift, S, n=3, slope=5, route="df")
    add("many", shift, S, n=300, slope=3)
    for m in (3, 5):
        add("bounds2_%s" % m, bounds, ("bounds",), n=2, slope=m)
    add("bounds3", bounds, ("bounds",), n=3, slope=3)
    add("const", constant, ("constant",), n=3, slope=3)
    for w in ("stress", "count"):
        add("scale_" + w, scaled, ("scaled",), n=2, slope=3, what=w)
        add("scale3_" + w, scaled, ("scaled",), n=3, slope=4.5, what=w)
    for w in ("bent", "twice", "count_cycle", "mean_stress", "stress_range"):
        add("bad_" + w, bad, ("bad",), what=w)
    if big:
        add("cc6", shift, S, n=6, slope=3)
        add("df6", shift, S, n=6, slope=4.5, route="df")
        add("bounds4", bounds, ("bounds",), n=4, slope=3)
        add("const6", constant, ("constant",), n=6, slope=5)
        for w in ("stress", "count"):
            add("scale5_" + w, scaled, ("scaled",), n=5, slope=3, what=w)
    return also(cs, "cc2_3", "df2_3")
