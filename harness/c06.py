"""C06: CycleCount.from_timeseries and the derived quantities."""
from engine.case import Case
from harness.counts import rows, stamp
from harness.signals import make, signal
from harness.warm import also

FUNCTIONS = ["cycle_count.CycleCount.from_timeseries",
             "cycle_count.CycleCount (derived properties, to_df)",
             "rainflow.rainflow", "utils.split_full_cycles_and_residuals",
             "utils.calc_full_cycles", "utils.calc_half_cycles"]
ASSUMPTIONS = ["signals with at least one non-zero range (a constant signal "
               "has no cycle and is outside the claim)"]


def series(ctx, fam, n, k=None, kind="array", settings=False, time=None):
    import py_fatigue.cycle_count.rainflow as rf
    from py_fatigue.cycle_count import CycleCount

    if kind == "int":
        x = [ctx.whole("x%d" % i, -50, 50) for i in range(n)]
    else:
        x = signal(ctx, fam, n, k)
    ctx.assume(abs(x[1] - x[0]) >= 0.01)
    kw = {}
    if settings:
        kw = dict(
            range_bin_lower_bound=ctx.real("lb", lo=0, hi=10),
            range_bin_width=ctx.real("w", lo=0.01, hi=10),
            mean_bin_lower_bound=ctx.real("mlb", lo=-100, hi=100),
            mean_bin_width=ctx.real("mw", lo=0.01, hi=10),
            name="abc", unit=ctx.choice("unit", ["MPa", "kNm"]),
            timestamp=stamp(3),
        )
    if time:
        t = [0.5 + 0.25 * i for i in range(n)]
        kw["time"] = t if time == "list" else ctx.array(t)
    cc = CycleCount.from_timeseries(make(ctx, x, kind), **kw)
    ref, res, _ = rf.rainflow(ctx.array(x))
    got = rows(cc)
    ctx.check("n", len(got) == len(ref))
    for g, e in zip(got, ref):
        ctx.eq("range", g[0], e[0] * 2)
        ctx.eq("mean", g[1], e[1])
        ctx.eq("count", g[2], e[2])
    ctx.eq_list("residual", cc.residuals_sequence, res)
    if settings:
        ctx.eq("lb", cc.range_bin_lower_bound, kw["range_bin_lower_bound"])
        ctx.eq("w", cc.range_bin_width, kw["range_bin_width"])
        ctx.eq("mlb", cc.mean_bin_lower_bound, kw["mean_bin_lower_bound"])
        ctx.eq("mw", cc.mean_bin_width, kw["mean_bin_width"])
        ctx.check("name", cc.name == "abc" and cc.unit == kw["unit"]
                  and cc.timestamp == stamp(3))
    else:
        ctx.check("default unit", cc.unit == "MPa")
    ctx.check("fresh", cc.nr_small_cycles == 0 and not cc.lffd_solved
              and cc.mean_stress_corrected == "No"
              and cc.stress_concentration_factor == 1.0)
    derived(ctx, cc)
    for lo, hi in zip(cc.min_stress, cc.max_stress):
        ctx.holds("within:max", *[hi <= v + 1e-6 for v in x])
        ctx.holds("within:min", *[lo >= v - 1e-6 for v in x])
        ctx.holds("sample:max", *[ctx.close(hi, v) for v in x])
        ctx.holds("sample:min", *[ctx.close(lo, v) for v in x])
    if any(bool(g[2] == 1.0) for g in got):
        ctx.reach("full")


def derived(ctx, cc):
    got = rows(cc)
    for (r, m, c), a, lo, hi in zip(got, cc.stress_amplitude, cc.min_stress,
                                    cc.max_stress):
        ctx.eq("amplitude", a, r / 2)
        ctx.eq("min", lo, m - r / 2)
        ctx.eq("max", hi, m + r / 2)
    ctx.check("lengths", len(cc.stress_amplitude) == len(cc.min_stress)
              == len(cc.max_stress) == len(got))
    full = []
    for r, m, c in got:
        full += [(m, r)] * int(c)
    half = [(m, r) for r, m, c in got if c - int(c) == 0.5]
    for nm, view, exp in (("full", cc.full_cycles, full),
                          ("half", cc.residuals, half),
                          ("half2", cc.half_cycles, half)):
        ctx.check(nm + ":n", len(view) == len(exp))
        for v, e in zip(view, exp):
            ctx.eq(nm + ":mean", v[0], e[0])
            ctx.eq(nm + ":range", v[1], e[1])
    df = cc.to_df()
    ctx.check("df:n", len(df) == len(got))
    for nm, k in (("stress_range", 0), ("mean_stress", 1),
                  ("count_cycle", 2)):
        for v, g in zip(list(df[nm]), got):
            ctx.eq("df:" + nm, v, g[k])
    m1, m2, m3 = cc.statistical_moments
    rr = [e[1] for e in full + half]
    s = 0.0
    for v in rr:
        s = s + v
    mu = s / len(rr)
    ctx.eq("moment1", m1, mu)


def moments(ctx, counts):
    """the moments of a given table (second and third)"""
    import numpy as np
    from py_fatigue.cycle_count import CycleCount

    n = len(counts)
    r = [ctx.real("r%d" % i, lo=0.5, hi=100) for i in range(n)]
    cc = CycleCount(count_cycle=np.array(counts), stress_range=ctx.array(r),
                    mean_stress=np.zeros(n))
    m1, m2, m3 = cc.statistical_moments
    rr = []
    for v, c in zip(r, counts):
        rr += [v] * (int(c) + (1 if c - int(c) == 0.5 else 0))
    mu = sum(rr[1:], rr[0]) / len(rr)
    var = sum([(v - mu) ** 2 for v in rr[1:]], (rr[0] - mu) ** 2) / len(rr)
    sk = sum([(v - mu) ** 3 for v in rr[1:]], (rr[0] - mu) ** 3) / len(rr)
    ctx.eq("m1", m1, mu)
    ctx.eq("m2", m2 * m2 * mu * mu, var)
    ctx.eq("m3", m3 * mu ** 3, sk)


def cases(tier):
    big = tier == "thorough"
    cs = [
        Case("raw%d" % n, series, fam="raw", n=n,
             bounds="%d arbitrary samples" % n,
             must_reach=["full"] if n > 3 else [])
        for n in [2, 3, 4] + ([5] if big else [])
    ]
    cs += [
        Case("alt%d" % n, series, fam="alt", n=n,
             bounds="%d reversals" % n, must_reach=["full"])
        for n in [5] + ([6, 7] if big else [])
    ]
    cs += [
        Case("nest9_5", series, fam="nest", n=9, k=5,
             bounds="9 reversals, shrinking then growing",
             must_reach=["full"]),
        Case("list4", series, fam="raw", n=4, kind="list",
             bounds="4 samples in a list", must_reach=["full"]),
        Case("int4", series, fam="raw", n=4, kind="int",
             bounds="4 integer samples", must_reach=["full"]),
        Case("set4", series, fam="raw", n=4, settings=True,
             bounds="4 samples, arbitrary bin settings", must_reach=["full"]),
        Case("time4", series, fam="raw", n=4, time="array",
             bounds="4 samples with times", must_reach=["full"]),
        Case("timelist4", series, fam="raw", n=4, time="list", kind="list",
             bounds="4 samples and times in lists", must_reach=["full"]),
        Case("moments2", moments, counts=[0.5, 1.0],
             bounds="2 cycles, arbitrary ranges"),
        Case("moments3", moments, counts=[0.5, 2.0, 1.0],
             bounds="3 rows, arbitrary ranges"),
    ]
    return also(cs, "raw4")
