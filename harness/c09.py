"""C09: bins cover all cycles with the requested origin and width."""
from engine.case import Case
from harness.counts import count
from harness.warm import also

FUNCTIONS = ["utils.calc_bin_edges", "utils.bin_upper_bound",
             "utils.FatigueStress (bins_idx, binned_values, bin_edges, "
             "bin_centers)", "cycle_count.CycleCount.bin_edges",
             "cycle_count.CycleCount.bin_centers",
             "cycle_count.CycleCount.range_bin_upper_bound",
             "cycle_count.CycleCount.mean_bin_upper_bound",
             "cycle_count.CycleCount.__post_init__"]
ASSUMPTIONS = ["bin edges are compared up to their documented rounding to 5 "
               "decimals"]
TOL = 4e-5  # edges are rounded to 5 decimals


def upper(ctx, sym, k):
    """bin_upper_bound"""
    from py_fatigue.utils import bin_upper_bound

    lb, w = setting(ctx, sym)
    v = ctx.real("v", lo=-30, hi=60)
    ctx.assume(v - lb <= k * w)
    ctx.assume(lb - v <= k * w)
    ub = bin_upper_bound(lb, w, v)
    ctx.le("covers", v, ub)
    ctx.le("smallest", ub, v + w)
    ctx.check("strict", ub - v - w < 1e-6)
    n = ctx.int("n", -k - 1, k + 1)
    # a whole number of widths above the lower bound
    ctx.holds("whole", *[ctx.close(ub, lb + j * w)
                         for j in range(-k - 1, k + 2)])
    if n == 0:
        ctx.reach("n")


GRID = {"def": (0.2, 0.05), "unit": (0.0, 1.0), "mean": (-5.0, 10.0),
        "off": (-0.3, 0.7), "wide": (1.5, 12.5)}


def setting(ctx, sym):
    if sym == "any":
        return ctx.real("lb", lo=-20, hi=20), ctx.real("w", lo=0.05, hi=20)
    if sym == "lb":
        return ctx.real("lb", lo=-20, hi=20), 0.75
    if sym == "w":
        return 0.25, ctx.real("w", lo=0.05, hi=20)
    return GRID[sym]


def edges(ctx, sym, k, far=False):
    """calc_bin_edges"""
    from py_fatigue.utils import calc_bin_edges

    lb, w = setting(ctx, sym)
    v = ctx.real("v", lo=-30, hi=300)
    ctx.assume(v >= lb)
    ctx.assume(v - lb <= k * w)
    if far:
        ctx.assume(v - lb >= (k - 2) * w)
    e = calc_bin_edges(lb, v, w)
    if len(e) > 1:
        ctx.reach("bins")
    ctx.check("some", len(e) >= 1)
    for i, x in enumerate(e):
        ctx.eq("edge", x, lb + i * w, abs_=TOL, rel=0)
    ctx.le("covers", v, e[-1], abs_=TOL)
    ctx.le("tight", e[-1], v + w, abs_=TOL)


def default(ctx, n, what):
    """default origin: the smallest value lies in the first bin"""
    import numpy as np
    from py_fatigue.cycle_count import CycleCount
    from py_fatigue.mean_stress import MeanStress
    from py_fatigue.stress_range import StressRange

    w = ctx.choice("w", (10, 0.5, 3.0))
    m = [ctx.real("m%d" % i, lo=-3 * w, hi=3 * w) for i in range(n)]
    if what == "cc":
        cc = CycleCount(count_cycle=np.ones(n), stress_range=np.ones(n),
                        mean_stress=ctx.array(m), mean_bin_width=w)
        lb = cc.mean_bin_lower_bound
        first = cc.bin_edges[0][:2]
    else:
        K = MeanStress if what == "mean" else StressRange
        f = K(_counts=np.ones(n), _values=ctx.array(m), bin_width=w)
        lb = f.bin_lb
        first = f.bin_edges[:2]
        for i in f.bins_idx:
            ctx.check("index", 0 <= i < len(f.bin_edges) - 1)
    lo = m[0]
    for v in m[1:]:
        if bool(v < lo):
            lo = v
    ctx.le("above", lb, lo)
    ctx.le("first", lo, lb + w)
    ctx.eq("edge0", first[0], lb, abs_=TOL)
    if len(first) > 1:
        ctx.eq("edge1", first[1], lb + w, abs_=TOL)


def binned(ctx, n, sym, k, counts=(0.5, 1.0, 2.0), ub=False, what="range",
           far=False):
    """every full cycle at or above the lower bound is in its bin"""
    import numpy as np
    from py_fatigue.mean_stress import MeanStress
    from py_fatigue.stress_range import StressRange

    lb, w = setting(ctx, sym)
    c = [ctx.choice("c%d" % i, counts) for i in range(n)]
    v = [ctx.real("v%d" % i, lo=-30, hi=300) for i in range(n)]
    for x in v:
        ctx.assume(x >= lb)
        ctx.assume(x - lb <= k * w)
        if far:
            ctx.assume(x - lb >= (k - 2) * w)
    K = MeanStress if what == "mean" else StressRange
    f = K(_counts=np.array(c), _values=ctx.array(v), bin_width=w, _bin_lb=lb,
          **({"_bin_ub": lb + k * w} if ub else {}))
    full = []
    for x, y in zip(v, c):
        full += [x] * int(y)
    if not full:
        return
    e, ce = f.bin_edges, f.bin_centers
    ctx.check("n", len(ce) == len(e) - 1 and len(ce) >= 1)
    for i, x in enumerate(e):
        ctx.eq("edge", x, lb + i * w, abs_=TOL, rel=0)
    for i, x in enumerate(ce):
        ctx.eq("centre", x, lb + (i + 0.5) * w, abs_=TOL, rel=0)
    idx, val = f.bins_idx, f.binned_values
    ctx.check("len", len(idx) == len(val) == len(full))
    for i, b, x in zip(idx, val, full):
        i = int(i)
        ctx.check("in range", 0 <= i < len(ce))
        ctx.le("low", lb + i * w, x, abs_=TOL, rel=0)
        ctx.le("high", x, lb + (i + 1) * w, abs_=TOL, rel=0)
        ctx.eq("value", b, lb + (i + 0.5) * w, abs_=TOL, rel=0)
        if i > 1:
            ctx.reach("upper")


def views(ctx, n, sym, k):
    """the views of a cycle count"""
    lb, w = setting(ctx, sym)
    cc, c, r, m, _ = count(ctx, n, counts=(0.5, 1.0, 2.0),
                           range_bin_lower_bound=lb, range_bin_width=w,
                           _mean_bin_lower_bound=-20.0, mean_bin_width=20.0)
    for x in r:
        ctx.assume(x >= lb)
        ctx.assume(x - lb <= k * w)
    for x in m:
        ctx.assume(x >= -20)
        ctx.assume(x <= 40)
    if not any(x >= 1 for x in c):
        return
    for nm, j, l, s, ub, vals in (
        ("mean", 0, -20.0, 20.0, cc.mean_bin_upper_bound, m),
        ("range", 1, lb, w, cc.range_bin_upper_bound, r),
    ):
        e, ce = cc.bin_edges[j], cc.bin_centers[j]
        ctx.check(nm + ":n", len(ce) == len(e) - 1)
        for i, x in enumerate(e):
            ctx.eq(nm + ":edge", x, l + i * s, abs_=TOL, rel=0)
        for i, x in enumerate(ce):
            ctx.eq(nm + ":centre", x, l + (i + 0.5) * s, abs_=TOL, rel=0)
        full = [x for x, y in zip(vals, c) if y >= 1]
        for x in full:
            ctx.le(nm + ":covers", x, e[-1], abs_=TOL)
            ctx.le(nm + ":covers", x, ub)
        ctx.holds(nm + ":tight", *[x + s >= ub - 1e-6 for x in full])
        # (rounding may add an empty last bin)
        ctx.holds(nm + ":ub", ctx.close(e[-1], ub, abs_=TOL),
                  ctx.close(e[-1], ub + s, abs_=TOL))
    ctx.reach("views")


def export(ctx, n, s, k):
    """classes of an export: each cycle at or above the bound once"""
    lb, w = setting(ctx, s)
    cc, c, r, m, _ = count(ctx, n, counts=(1.0, 2.0), lo=0.0,
                           range_bin_lower_bound=lb, range_bin_width=w,
                           _mean_bin_lower_bound=-20.0, mean_bin_width=20.0)
    tot = 0
    for x, y, z in zip(r, m, c):
        ctx.assume(x <= lb + k * w)
        ctx.assume(y >= -20)
        ctx.assume(y <= 20)
        if bool(x >= lb):
            tot += z
        else:
            ctx.reach("below")
    if not tot:
        return
    d = cc.as_dict(damage_tolerance_for_binning=1e9,
                   max_consecutive_zeros=64)
    got = len(d["lg_c"])
    for h in d["hist"]:
        for v in h:
            got = got + v
    ctx.eq("once", got, tot)
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    k = 6 if big else 4
    grid = ["def", "unit", "mean", "off"]
    cs = [
        Case("upper_" + s, upper, sym=s, k=k, must_reach=["n"],
             bounds="at most %d bins, settings: %s" % (k, s))
        for s in ["any", "lb", "w"] + grid
    ]
    cs += [
        Case("edges_" + s, edges, sym=s, k=k, must_reach=["bins"],
             bounds="at most %d bins, settings: %s" % (k, s))
        for s in ["any", "lb", "w"] + grid
    ]
    cs += [
        Case("default_%s%d" % (w, n), default, n=n, what=w,
             bounds="%d values" % n)
        for w in ("cc", "mean", "range") for n in ([1, 2, 3] if big else
                                                   [1, 2])
    ]
    cs += [
        Case("binned%d_%s" % (n, s), binned, n=n, sym=s, k=kk,
             must_reach=["upper"],
             bounds="%d cycles, at most %d bins, settings: %s" % (n, kk, s))
        for n, s, kk in [(1, "any", 3), (1, "lb", 3), (1, "w", 3),
                         (2, "def", 3), (2, "off", 3), (3, "unit", 3)]
        + ([(2, "any", 3), (2, "lb", 4), (3, "def", 4), (3, "wide", 4),
            (2, "unit", 6)] if big else [])
    ]
    for s in ("def", "off", "wide"):
        q = 400 if s != "wide" else 23
        cs.append(Case("far_" + s, edges, sym=s, k=q, far=True,
                       must_reach=["bins"], bounds="%d bins" % q))
        if q > 100:
            continue
        cs.append(Case("farbin_" + s, binned, n=1, sym=s, k=q, far=True,
                       must_reach=["upper"], bounds="1 cycle, %d bins" % q))
    cs += [
        Case("ub2", binned, n=2, sym="def", k=3, ub=True,
             must_reach=["upper"], bounds="2 cycles, upper bound given"),
        Case("mean2", binned, n=2, sym="mean", k=3, what="mean",
             must_reach=["upper"], bounds="2 cycle means"),
    ]
    cs += [
        Case("views%d_%s" % (n, s), views, n=n, sym=s, k=3,
             must_reach=["views"],
             bounds="%d cycles, at most 3 bins, settings: %s" % (n, s))
        for n, s in [(1, "any"), (2, "def"), (2, "unit")]
        + ([(2, "lb"), (3, "def")] if big else [])
    ]
    cs += [
        Case("export%d_%s" % (n, s), export, n=n, s=s, k=3,
             must_reach=["done", "below"],
             bounds="%d cycles, at most 3 range classes, settings: %s"
             % (n, s))
        for n, s in [(1, "wide"), (1, "def")] + ([(2, "wide"), (2, "def")]
                                                 if big else [])
    ]
    return also(cs, "binned2_def", "views2_def")
