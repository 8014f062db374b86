"""C05: the residual sequence."""
from engine.case import Case
from harness.signals import long, make, signal
from harness.warm import also

FUNCTIONS = ["rainflow.rainflow", "rainflow.findtp", "rainflow.findrfc_astm",
             "rainflow._findrfc5_astm",
             "cycle_count.CycleCount.from_timeseries",
             "cycle_count.CycleCount.residuals",
             "utils.split_full_cycles_and_residuals"]


def residual(ctx, fam, n, k=None, kind="array", time=False):
    import py_fatigue.cycle_count.rainflow as rf

    x = long(ctx, n, free=k) if fam == "long" else signal(ctx, fam, n, k)
    args = [make(ctx, x, kind)]
    t = None
    if time:
        t = [ctx.real("t0", lo=0, hi=10)]
        for i in range(1, n):
            t.append(t[-1] + ctx.real("dt%d" % i, lo=0.01, hi=10))
        args.append(make(ctx, t, kind))
    out = rf.rainflow(*args)
    rfs, res, idx = out[:3]
    idx = [int(i) for i in idx]
    if not len(rfs):
        return
    half = [r for r in rfs if bool(r[2] == 0.5)]
    ctx.check("index", all(0 <= i < n for i in idx)
              and all(a < b for a, b in zip(idx[:-1], idx[1:])))
    ctx.eq_list("values", res, [x[i] for i in idx])
    if time:
        ctx.eq_list("times", out[3], [t[i] for i in idx])
    ctx.check("last", idx[-1] == n - 1)
    ctx.eq("first", res[0], x[0])
    ctx.check("number", len(res) == len(half) + 1)
    for r, a, b in zip(half, res[:-1], res[1:]):
        ctx.eq("half:range", r[0] * 2, abs(b - a))
        ctx.eq("half:mean", r[1], (a + b) / 2)
    again = rf.rainflow(ctx.array(list(res)))
    ctx.check("no full", all(bool(r[2] == 0.5) for r in again[0]))
    ctx.check("again:n", len(again[0]) == len(half))
    for r, s in zip(half, again[0]):
        ctx.eq("again:range", s[0], r[0])
        ctx.eq("again:mean", s[1], r[1])
    ctx.eq_list("again:res", again[1], res)
    if len(half) < len(rfs):
        ctx.reach("full")
    if len(half) > 2:
        ctx.reach("three")


def count(ctx, fam, n, k=None, time=False):
    """the same through CycleCount"""
    from py_fatigue.cycle_count import CycleCount

    x = signal(ctx, fam, n, k)
    ctx.assume(abs(x[1] - x[0]) >= 0.01)
    kw = {}
    if time:
        kw["time"] = ctx.array([1.0 + 0.5 * i for i in range(n)])
    cc = CycleCount.from_timeseries(ctx.array(x), **kw)
    res = [v for v in cc.residuals_sequence]
    ctx.eq("first", res[0], x[0])
    ctx.eq("last", res[-1], x[-1])
    hc = cc.residuals
    ctx.check("number", len(hc) == len(res) - 1)
    for r, a, b in zip(hc, res[:-1], res[1:]):
        ctx.eq("mean", r[0], (a + b) / 2)
        ctx.eq("range", r[1], abs(b - a))
    again = CycleCount.from_timeseries(ctx.array(res))
    ctx.check("no full", len(again.full_cycles) == 0)
    ctx.eq_list("again", [v for r in again.residuals for v in r],
                [v for r in hc for v in r])
    mm = [v for v in cc.min_max_sequence]
    ctx.check("minmax:n", len(mm) == 2)
    for v in res:
        ctx.check("minmax", ctx.both(mm[0] <= v, v <= mm[1]))
    ctx.holds("min", *[v <= mm[0] for v in res])
    ctx.holds("max", *[v >= mm[1] for v in res])
    if len(cc.full_cycles):
        ctx.reach("full")


def cases(tier):
    big = tier == "thorough"
    cs = [
        Case("raw%d" % n, residual, fam="raw", n=n,
             bounds="%d arbitrary samples" % n,
             must_reach=["full", "three"] if n > 4 else
             (["full"] if n > 3 else []))
        for n in [2, 3, 4, 5] + ([6] if big else [])
    ]
    cs += [
        Case("alt%d" % n, residual, fam="alt", n=n,
             bounds="%d reversals" % n, must_reach=["full", "three"])
        for n in [6] + ([7, 8] if big else [])
    ]
    cs += [
        Case("nest%d_%d" % (n, k), residual, fam="nest", n=n, k=k,
             bounds="%d reversals, shrinking until %d then growing" % (n, k),
             must_reach=["full"] if k > 2 else [])
        for n, k in [(9, 5), (12, 9), (9, 2)] + (
            [(14, 8), (16, 12)] if big else [])
    ]
    cs += [
        Case("long700", residual, fam="long", n=700, k=(3, 350, -3),
             bounds="700 samples, 3 of them free within +-3",
             must_reach=["full", "three"]),
        Case("long33k", residual, fam="long", n=33000, k=(-3,),
             bounds="33000 samples, one free within +-3",
             must_reach=["full", "three"]),
        Case("time4", residual, fam="raw", n=4, time=True,
             bounds="4 samples, arbitrary increasing times",
             must_reach=["full"]),
        Case("timelist4", residual, fam="raw", n=4, time=True, kind="list",
             bounds="4 samples and times in lists", must_reach=["full"]),
        Case("cc4", count, fam="raw", n=4,
             bounds="4 samples through CycleCount", must_reach=["full"]),
        Case("ccalt6", count, fam="alt", n=6,
             bounds="6 reversals through CycleCount", must_reach=["full"]),
        Case("cctime5", count, fam="alt", n=5, time=True,
             bounds="5 reversals with times through CycleCount",
             must_reach=["full"]),
    ]
    return also(cs, "raw4")
