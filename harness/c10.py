"""C10: full/half splitting."""
from engine.case import Case
from harness.counts import count, table
from harness.warm import also

FUNCTIONS = ["utils.split_full_cycles_and_residuals",
             "utils.calc_full_cycles", "utils.calc_half_cycles",
             "utils.FatigueStress.full", "utils.FatigueStress.half",
             "cycle_count.CycleCount.full_cycles",
             "cycle_count.CycleCount.residuals"]


def split(ctx, n, counts):
    import numpy as np
    import py_fatigue.utils as u
    from py_fatigue.mean_stress import MeanStress
    from py_fatigue.stress_range import StressRange

    c, r, m = table(ctx, n, counts=counts)
    full, half, fi, hi = [], [], [], []
    for i in range(n):
        full += [(r[i], m[i])] * int(c[i])
        if int(c[i]) > 0:
            fi.append(i)
        if c[i] - int(c[i]) == 0.5:
            half.append((r[i], m[i]))
            hi.append(i)
    ca, ra, ma = np.array(c), ctx.array(r), ctx.array(m)
    a, b = u.split_full_cycles_and_residuals(ca)
    ctx.check("full index", [int(i) for i in a] == fi)
    ctx.check("half index", [int(i) for i in b] == hi)
    ctx.eq_list("full", u.calc_full_cycles(ra, ca), [e[0] for e in full])
    ctx.eq_list("half", u.calc_half_cycles(ra, ca), [e[0] for e in half])
    sr = StressRange(_counts=ca, _values=ra, bin_width=1.0, _bin_lb=0.0,
                     _bin_ub=1000.0)
    ctx.eq_list("sr full", sr.full, [e[0] for e in full])
    ctx.eq_list("sr half", sr.half, [e[0] for e in half])
    ms = MeanStress(_counts=ca, _values=ma, bin_width=1.0, _bin_lb=-1000.0,
                    _bin_ub=1000.0)
    ctx.eq_list("ms full", ms.full, [e[1] for e in full])
    ctx.eq_list("ms half", ms.half, [e[1] for e in half])
    if full and half:
        ctx.reach("both")
    if any(x > 2 for x in c):
        ctx.reach("many")


def views(ctx, n, counts):
    cc, c, r, m, _ = count(ctx, n, counts=counts)
    full, half = [], []
    for i in range(n):
        full += [(m[i], r[i])] * int(c[i])
        if c[i] - int(c[i]) == 0.5:
            half.append((m[i], r[i]))
    for nm, v, e in (("full", cc.full_cycles, full),
                     ("half", cc.residuals, half),
                     ("half2", cc.half_cycles, half)):
        ctx.check(nm + ":n", len(v) == len(e))
        for a, b in zip(v, e):
            ctx.eq(nm + ":mean", a[0], b[0])
            ctx.eq(nm + ":range", a[1], b[1])
    if full and half:
        ctx.reach("both")


def huge(ctx, counts):
    """large counts: the run lengths are right"""
    import numpy as np
    import py_fatigue.utils as u

    c, r, m = table(ctx, len(counts), counts=(1.0,))
    for i, x in enumerate(r):
        for y in r[:i]:
            ctx.assume(abs(x - y) >= 0.5)
    ca = np.array(counts)
    full = u.calc_full_cycles(ctx.array(r), ca)
    ctx.check("n", len(full) == sum(int(x) for x in counts))
    at = 0
    for x, k in zip(r, counts):
        for j in {0, int(k) // 3, int(k) - 1}:
            ctx.eq("full", full[at + j], x)
        at += int(k)
    half = [x for x, k in zip(r, counts) if k % 1]
    ctx.eq_list("half", u.calc_half_cycles(ctx.array(r), ca), half)
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    C = (0.5, 1.0, 1.5, 2.0, 3.5)
    cs = [
        Case("split%d" % n, split, n=n, counts=C,
             bounds="%d rows, counts in %s" % (n, C),
             must_reach=["many"] + (["both"] if n > 1 else []))
        for n in [1, 2, 3] + ([4] if big else [])
    ]
    cs += [
        Case("views%d" % n, views, n=n, counts=C,
             bounds="%d rows, counts in %s" % (n, C), must_reach=["both"])
        for n in [2, 3] + ([4] if big else [])
    ]
    cs.append(Case("zero2", split, n=2, counts=(0.0, 0.5, 1.0, 25.0),
                   bounds="2 rows, empty rows and large counts",
                   must_reach=["both", "many"]))
    for i, c in enumerate([(200.0, 1.0, 300.5), (40000.5, 130.0)]):
        cs.append(Case("huge%d" % i, huge, counts=c, must_reach=["done"],
                       bounds="rows with counts %s" % (c,)))
    cs.append(Case("split300", split, n=300, counts=C, must_reach=["many"],
                   bounds="300 rows, the last one free"))
    cs.append(Case("views300", views, n=300, counts=C, must_reach=["both"],
                   bounds="300 rows, the last one free"))
    return also(cs, "split2", "views2")
