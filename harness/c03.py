"""C03: conservation laws of rainflow counting."""
from engine.case import Case
from harness.ref import reversals
from harness.signals import make, signal
from harness.warm import also

FUNCTIONS = ["rainflow.rainflow", "rainflow.findtp", "rainflow._findcross",
             "rainflow.findrfc_astm", "rainflow._findrfc5_astm",
             "cycle_count.CycleCount.from_timeseries"]


def tot(xs):
    s = 0.0
    for v in xs:
        s = s + v
    return s


def balance(ctx, fam, n, k=None, kind="array", via="rainflow"):
    import numpy as np
    import py_fatigue.cycle_count.rainflow as rf
    from py_fatigue.cycle_count import CycleCount

    x = signal(ctx, fam, n, k)
    rev = reversals(x)
    runs = len(rev) - 1
    if via == "rainflow":
        rfs = rf.rainflow(make(ctx, x, kind))[0]
        rows = [(r[0] * 2, r[1], r[2]) for r in rfs]
    else:
        if runs == 0:
            return
        cc = CycleCount.from_timeseries(make(ctx, x, kind))
        rows = list(zip(cc.stress_range, cc.mean_stress, cc.count_cycle))
    ctx.eq("counts", tot([r[2] for r in rows]), runs / 2)
    tv = tot([abs(b - a) for a, b in zip(x[:-1], x[1:])])
    ctx.eq("variation", tot([r[0] * 2 * r[2] for r in rows]), tv)
    for r in rows:
        ctx.check("positive", r[0] > 0)
        ctx.check("count", r[2] == 0.5 or r[2] == 1.0)
        # extremes of the cycle lie within the signal
        ctx.holds("max", *[r[1] + r[0] / 2 <= v + 1e-6 for v in x])
        ctx.holds("min", *[r[1] - r[0] / 2 >= v - 1e-6 for v in x])
    if rows:
        # the overall range is counted and none is larger
        top, bot = x[0], x[0]
        for v in x[1:]:
            if bool(v > top):
                top = v
            if bool(v < bot):
                bot = v
        ctx.holds("largest", *[ctx.close(r[0], top - bot) for r in rows])
        for r in rows:
            ctx.le("range", r[0], top - bot)
        ctx.reach("cycles")
    ctx.check("np", np is not None)


def cases(tier):
    big = tier == "thorough"
    cs = [
        Case("raw%d" % n, balance, fam="raw", n=n,
             bounds="%d arbitrary samples" % n, must_reach=["cycles"])
        for n in [2, 3, 4, 5] + ([6] if big else [])
    ]
    cs += [
        Case("alt%d" % n, balance, fam="alt", n=n,
             bounds="%d alternating reversals" % n, must_reach=["cycles"])
        for n in [6] + ([7, 8] if big else [])
    ]
    cs += [
        Case("nest%d_%d" % (n, k), balance, fam="nest", n=n, k=k,
             bounds="%d reversals, ranges shrinking until %d then growing"
             % (n, k), must_reach=["cycles"])
        for n, k in [(9, 5), (12, 9)] + ([(14, 8), (16, 12)] if big else [])
    ]
    cs += [
        Case("cc4", balance, fam="raw", n=4, via="cc",
             bounds="4 samples through CycleCount", must_reach=["cycles"]),
        Case("list4", balance, fam="raw", n=4, kind="list",
             bounds="4 samples in a list", must_reach=["cycles"]),
        Case("cclist4", balance, fam="raw", n=4, kind="list", via="cc",
             bounds="4 samples in a list through CycleCount",
             must_reach=["cycles"]),
    ]
    return also(cs, "raw4")
