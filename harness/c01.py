"""C01: rainflow() against the ASTM E1049 procedure."""
from engine.case import Case
from harness.ref import astm, reversals
from harness.signals import bulk, long, make, signal
from harness.warm import also

FUNCTIONS = ["rainflow.rainflow", "rainflow.findtp", "rainflow.findextrema",
             "rainflow.findcross", "rainflow.findcross_indices",
             "rainflow._findcross", "rainflow.findrfc_astm",
             "rainflow._findrfc5_astm", "rainflow._findrfc3_astm"]
ASSUMPTIONS = ["oracle: harness/ref.py, the ASTM E1049-85 5.4.4 three-point "
               "procedure; rows are compared as a multiset"]


def count(ctx, fam, n, k=None, kind="array", time=False, ext=True):
    import py_fatigue.cycle_count.rainflow as rf

    if kind == "int":
        x = [ctx.whole("x%d" % i, -50, 50) for i in range(n)]
    else:
        x = signal(ctx, fam, n, k)
    args = [make(ctx, x, kind)]
    t = None
    if time:
        t0 = ctx.real("t0", lo=-100, hi=100)
        dt = ctx.real("dt", lo=0.01, hi=10)
        t = [t0 + dt * i for i in range(n)]
        args.append(make(ctx, t, "list" if kind == "list" else "array"))
    out = rf.rainflow(*args, extended_output=ext)
    rfs = out[0] if ext else out
    if ext:
        ctx.check("outputs", len(out) == (4 if time else 3))
        if time and len(out) == 4:
            idx = [int(i) for i in out[2]]
            ctx.eq_list("time", out[3], [t[i] for i in idx])
    exp, _ = astm(reversals(x))
    ctx.check("columns", len(rfs) == 0 or len(rfs[0]) == 5)
    ctx.matching("cycles", [(r[0] * 2, r[1], r[2]) for r in rfs], exp)
    for r in rfs:
        b = int(r[3])
        e = b + int(r[4]) // 2
        ok = 0 <= b < e <= n - 1
        ctx.check("position", ok and int(r[4]) % 2 == 0)
        if ok:
            ctx.eq("ends:range", abs(x[e] - x[b]), r[0] * 2)
            ctx.eq("ends:mean", (x[e] + x[b]) / 2, r[1])
    if len(exp):
        ctx.reach("cycles")
    if any(c[2] == 1.0 for c in exp):
        ctx.reach("full")


def points(ctx, n, fam="alt", k=None):
    """a sequence of turning points counted directly, with and without times"""
    import py_fatigue.cycle_count.rainflow as rf

    x = signal(ctx, fam, n, k)
    exp, _ = astm(x)
    r3 = rf.findrfc_astm(ctx.array(x))
    ctx.check("columns3", len(r3) == 0 or len(r3[0]) == 3)
    ctx.matching("cycles3", [(r[0] * 2, r[1], r[2]) for r in r3], exp)
    t0 = ctx.real("t0", lo=-10, hi=10)
    dt = ctx.real("dt", lo=0.01, hi=10)
    r5 = rf.findrfc_astm(ctx.array(x),
                         ctx.array([t0 + dt * i for i in range(n)]))
    ctx.matching("cycles5", [(r[0] * 2, r[1], r[2]) for r in r5], exp)
    # begin and end times identify the two points
    for i, r in enumerate(r5):
        ctx.holds("times", *[
            ctx.both(ctx.close(r[3], t0 + dt * a),
                     ctx.close(r[4], dt * (2 * (b - a))),
                     ctx.close(r[0] * 2, abs(x[b] - x[a])))
            for a in range(n) for b in range(a + 1, n)
        ])
    if any(c[2] == 1.0 for c in exp):
        ctx.reach("full")


def lengthy(ctx, n, free):
    """long signals: mostly given samples"""
    import py_fatigue.cycle_count.rainflow as rf

    x = long(ctx, n, free=free)
    rfs, _, _ = rf.rainflow(ctx.array(x))
    exp, _ = astm(reversals(x))
    bulk(ctx, "cycles", [(r[0] * 2, r[1], r[2]) for r in rfs], exp)
    for r in rfs:
        b = int(r[3])
        e = b + int(r[4]) // 2
        ok = 0 <= b < e <= n - 1
        ctx.check("position", ok and int(r[4]) % 2 == 0)
        if ok and not (r[0] == 0):
            ctx.eq("ends:range", abs(x[e] - x[b]), r[0] * 2)
            ctx.eq("ends:mean", (x[e] + x[b]) / 2, r[1])
    ctx.reach("done")


def refused(ctx):
    import numpy as np
    import py_fatigue.cycle_count.rainflow as rf

    x = ctx.reals("x", 3, lo=-10, hi=10)
    for bad in (tuple(x), None, "abc", x[0], {"a": 1}):
        ctx.raises("type", TypeError, rf.rainflow, bad)
    ctx.raises("length", ValueError, rf.rainflow, ctx.array(x),
               ctx.array([0.0, 1.0]))
    ctx.raises("time type", TypeError, rf.rainflow, ctx.array(x), (0, 1, 2))
    ctx.check("np", np is not None)


def cases(tier):
    big = tier == "thorough"
    cs = []
    for n in [2, 3, 4, 5, 6] + ([7] if big else []):
        cs.append(Case(
            "raw%d" % n, count, fam="raw", n=n,
            bounds="%d arbitrary samples in +-1000" % n,
            must_reach=["cycles"] + (["full"] if n > 3 else [])))
    for n in [7] + ([8, 9] if big else []):
        cs.append(Case(
            "alt%d" % n, count, fam="alt", n=n,
            bounds="%d alternating reversals, arbitrary ranges" % n,
            must_reach=["full"]))
    for n, k in [(11, 6), (12, 9), (10, 3)] + (
            [(16, 9), (17, 4), (18, 14)] if big else []):
        cs.append(Case(
            "nest%d_%d" % (n, k), count, fam="nest", n=n, k=k,
            bounds="%d reversals, ranges shrinking until %d then growing"
            % (n, k), must_reach=["full"]))
    cs += [
        Case("list4", count, fam="raw", n=4, kind="list",
             bounds="4 samples in a list", must_reach=["full"]),
        Case("int4", count, fam="raw", n=4, kind="int",
             bounds="4 integer samples in +-50", must_reach=["full"]),
        Case("time4", count, fam="raw", n=4, time=True,
             bounds="4 samples, evenly spaced times", must_reach=["full"]),
        Case("timelist4", count, fam="raw", n=4, time=True, kind="list",
             bounds="4 samples and times in lists", must_reach=["full"]),
        Case("short4", count, fam="raw", n=4, ext=False,
             bounds="4 samples, short output", must_reach=["full"]),
        Case("points5", points, n=5,
             bounds="5 turning points", must_reach=["full"]),
        Case("points10", points, n=10, k=6, fam="nest",
             bounds="10 turning points, shrinking then growing",
             must_reach=["full"]),
        Case("long2100", lengthy, n=2100, free=(2, 1000, -3),
             bounds="2100 samples, 3 of them free within +-3",
             must_reach=["done"]),
        Case("long33k", lengthy, n=33000 if not big else 66000,
             free=(-2,), bounds="33000 (66000) samples, one free",
             must_reach=["done"]),
        Case("refused", refused, bounds="wrong types and lengths"),
    ]
    return also(cs, "raw4", "time4")
