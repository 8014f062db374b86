"""C17: damage-equivalent stress and moment."""
from engine.case import Case
from harness.counts import given, stamp
from harness.warm import also

FUNCTIONS = ["damage.stress_life.calc_des", "damage.stress_life.get_des",
             "damage.stress_life.calc_dem", "damage.stress_life.get_dem",
             "damage.stress_life.PalmgrenMiner.des",
             "damage.stress_life.PalmgrenMiner.dem",
             "material.sn_curve._check_param_couple_types"]
ASSUMPTIONS = ["slopes from a grid; ranges, counts, radii and equivalent "
               "cycles arbitrary within the bounds"]
PI = 3.141592653589793


def spectrum(ctx, n, counts=None):
    if n > 20:  # only the last cycle is free
        s, c = spectrum(ctx, 1, counts)
        return ([given(i, 83, 3.0) for i in range(n - 1)] + s,
                [(1.0, 0.5)[i % 2] for i in range(n - 1)] + c)
    s = [ctx.pos("s%d" % i, 1e-1, 1e3, log=False) for i in range(n)]
    c = [ctx.choice("c%d" % i, counts) if counts else
         ctx.pos("c%d" % i, 0.5, 1e6, log=False) for i in range(n)]
    return s, c


def routes(ctx, route, s, c, m, neq, radii=None):
    """DES, or DEM when radii are given"""
    import numpy as np
    from py_fatigue.cycle_count import CycleCount
    from py_fatigue.damage import stress_life as sl

    kw = {} if neq is None else {"equivalent_cycles": neq}
    n = len(s)
    sym = any(not isinstance(x, float) for x in c)
    ca = ctx.array(c) if sym else np.array(c)
    if route == "calc":
        a = (ctx.array(s), ca, m)
    elif route == "list":
        a = (list(s), list(c), m)
    elif route == "number":
        a = (s[0], c[0], m)
    else:
        cc = CycleCount(count_cycle=ca, stress_range=ctx.array(s),
                        mean_stress=np.zeros(n), timestamp=stamp(0))
        if route == "cc":
            if radii is None:
                return sl.get_des(cc, m, **kw)
            return sl.get_dem(radii[0], radii[1], cc, m, **kw)
        df = cc.to_df()
        if radii is None:
            return df.miner.des(m, **kw)
        return df.miner.dem(radii[0], radii[1], m, **kw)
    if radii is None:
        return sl.calc_des(*a, **kw)
    return sl.calc_dem(radii[0], radii[1], *a, **kw)


def des(ctx, n, m, route="calc", neq="sym", counts=None):
    """DES^m * N_eq = sum of n_i s_i^m"""
    s, c = spectrum(ctx, n, counts)
    N = ctx.pos("neq", 1.0, 1e9) if neq == "sym" else neq
    d = routes(ctx, route, s, c, m, N)
    if N is None:
        N = 1e7
    tot = 0.0
    for x, y in zip(s, c):
        tot = tot + y * x ** float(m)
    ctx.le("positive", 0.0, d)
    ctx.eq("damage", ctx.log(d) * m + ctx.log(N), ctx.log(tot))
    ctx.reach("des")


def scale(ctx, n, m):
    """linear in the stresses, independent of order and of splitting"""
    s, c = spectrum(ctx, n)
    N = ctx.pos("neq", 1.0, 1e9)
    f = ctx.pos("f", 0.01, 100.0)
    d = routes(ctx, "calc", s, c, m, N)
    e = routes(ctx, "calc", [f * x for x in s], c, m, N)
    ctx.eq("scale", ctx.log(e), ctx.log(d) + ctx.log(f))
    e = routes(ctx, "calc", s[::-1], c[::-1], m, N)
    ctx.eq("order", ctx.log(e), ctx.log(d))
    e = routes(ctx, "calc", s + s[:1], [c[0] / 2] + c[1:] + [c[0] / 2], m, N)
    ctx.eq("split", ctx.log(e), ctx.log(d))
    ctx.reach("des")


def between(ctx, n, m, counts):
    """for the same number of cycles, between smallest and largest range"""
    s, c = spectrum(ctx, n, counts)
    for a, b in zip(s[:-1], s[1:]):
        ctx.assume(a <= b)
    d = routes(ctx, "calc", s, c, m, float(sum(c)))
    ctx.le("above", s[0] ** m, d ** m)
    ctx.le("below", d ** m, s[-1] ** m)
    ctx.reach("des")


def constant(ctx, m):
    """constant amplitude applied for the equivalent cycles"""
    s, c = spectrum(ctx, 1)
    d = routes(ctx, "calc", s, c, m, c[0])
    ctx.eq("same", d, s[0])


def dem(ctx, n, m, route="calc", neq="sym", counts=None):
    s, c = spectrum(ctx, n, counts)
    ro = ctx.real("ro", lo=0.01, hi=20)
    ri = ctx.real("ri", lo=0.0, hi=20)
    N = ctx.pos("neq", 1.0, 1e9) if neq == "sym" else neq
    if bool(ro <= ri):
        ctx.raises("tube", ValueError,
                   lambda: routes(ctx, route, s, c, m, N, (ro, ri)))
        ctx.reach("refused")
        return
    d = routes(ctx, route, s, c, m, N)
    e = routes(ctx, route, s, c, m, N, (ro, ri))
    ctx.eq("moment", e * ro, PI / 4 * (ro ** 4 - ri ** 4) * d * 1e6)
    ctx.reach("dem")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=(), **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    for m in (1, 2, 3, 4, 5, 4.5, 9) + ((6, 7, 8, 10, 12) if big else ()):
        add("des_m%s" % str(m).replace(".", "h"), des, ("des",), n=2, m=m)
    for r in ("list", "cc", "df"):
        add("des_" + r, des, ("des",), n=2, m=3, route=r)
        add("desn_" + r, des, ("des",), n=2, m=5, route=r, neq=None,
            counts=(0.5, 1.0))
    add("des_num", des, ("des",), n=1, m=4, route="number")
    add("des3", des, ("des",), n=3, m=3, neq=None)
    add("des4", des, ("des",), n=4, m=4, neq=1e6)
    for m in (3, 4.5):
        add("scale_m%s" % str(m).replace(".", "h"), scale, ("des",), n=2,
            m=m)
    add("scale3", scale, ("des",), n=3, m=3)
    add("btw2", between, ("des",), n=2, m=3, counts=(0.5, 1.0, 3.0))
    for r in ("calc", "cc", "df"):
        add("many_" + r, des, ("des",), n=300, m=3, route=r)
    add("const3", constant, m=3)
    add("const5", constant, m=5)
    for r in ("calc", "list", "cc", "df"):
        add("dem_" + r, dem, ("dem", "refused"), n=2, m=3, route=r)
    add("dem_num", dem, ("dem", "refused"), n=1, m=4, route="number")
    add("dem_def", dem, ("dem", "refused"), n=2, m=5, route="cc", neq=None)
    if big:
        add("des8", des, ("des",), n=8, m=3)
        add("des6cc", des, ("des",), n=6, m=5, route="cc")
        add("btw3", between, ("des",), n=3, m=3, counts=(0.5, 1.0))
        add("dem4", dem, ("dem", "refused"), n=4, m=3)
    return also(cs, "des_cc", "dem_cc", "des_m3", "des_df")
