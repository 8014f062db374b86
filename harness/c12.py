"""C12: resolution of the residuals (low-frequency fatigue dynamics)."""
from engine.case import Case
from harness.counts import count, freeze, rows, same, stamp
from harness.ref import astm, reversals
from harness.signals import signal
from harness.warm import also

FUNCTIONS = ["cycle_count.CycleCount.solve_lffd",
             "cycle_count.CycleCount.resolve_residuals",
             "cycle_count._solve_lffd", "cycle_count._lffd_checks",
             "cycle_count.utils.solve_lffd",
             "cycle_count.CycleCount.__add__",
             "cycle_count.CycleCount.from_timeseries", "rainflow.rainflow"]
ASSUMPTIONS = ["a residual sequence of equal values only (no cycle at all) "
               "is outside the claim"]


def kept(ctx, f, g, mode=None):
    """what resolving must not change"""
    for k in ("ts", "unit", "rlb", "rw", "mlb", "mw", "msc", "scf", "name",
              "small"):
        ctx.eq("kept:" + k, g[k], f[k])
    ctx.check("kept:time", g["time"] == f["time"])
    if mode is None or "res" in mode.lower():
        ctx.eq_list("kept:minmax", g["mm"], f["mm"])
    ctx.check("solved", g["lffd"] is True)


def halves(ctx, g):
    """the new residual sequence spans the half cycles left"""
    res = g["res"]
    h = [(abs(b - a), (a + b) / 2) for a, b in zip(res[:-1], res[1:])]
    ctx.matching("res", [(r, m) for r, m, c in g["rows"] if c == 0.5], h)


def direct(ctx, n, nres, counts=(0.5, 1.0, 2.0), mode=None, kw=None):
    """arbitrary rows and residual sequence"""
    k = dict(
        range_bin_lower_bound=ctx.real("lb", lo=0, hi=10),
        range_bin_width=ctx.real("w", lo=0.01, hi=10),
        _mean_bin_lower_bound=ctx.real("mlb", lo=-100, hi=100),
        mean_bin_width=ctx.real("mw", lo=0.01, hi=10),
        nr_small_cycles=ctx.whole("sm", 0, 100),
        stress_concentration_factor=ctx.real("scf", lo=0.1, hi=10),
        unit="kNm", name="abc",
    )
    k.update(kw or {})
    cc, c, r, m, s = count(ctx, n, counts=counts, nres=nres, hours=2, **k)
    if nres > 1:
        ctx.assume(abs(s[1] - s[0]) >= 0.01)
    f = freeze(cc)
    if mode is None:
        out = ctx.choice("how", [cc.solve_lffd, cc.resolve_residuals])()
    else:
        out = cc.solve_lffd(mode)
    same(ctx, "orig", freeze(cc), f)
    g = freeze(out)
    seq = s
    if mode is not None and mode.lower() != "residuals":
        seq = f["mm"]
    if len(seq) < 3:
        same(ctx, "asis", g, f)
        ctx.reach("short")
        return
    kept(ctx, f, g, mode)
    cyc, _ = astm(reversals(seq))
    ctx.matching("rows", g["rows"],
                 [x for x in f["rows"] if x[2] > 0.5] + cyc)
    halves(ctx, g)
    if any(x[2] == 1.0 for x in cyc):
        ctx.reach("closed")
    # resolved counts are left alone
    same(ctx, "again", freeze(out.solve_lffd()), g)


def single(ctx, fam, n, k=None):
    from py_fatigue.cycle_count import CycleCount
    from py_fatigue.cycle_count.utils import solve_lffd

    x = signal(ctx, fam, n, k)
    ctx.assume(abs(x[1] - x[0]) >= 0.01)
    cc = CycleCount.from_timeseries(ctx.array(x), timestamp=stamp(0),
                                    mean_bin_lower_bound=-1000.0)
    f = freeze(cc)
    out = cc.solve_lffd()
    g = freeze(out)
    same(ctx, "orig", freeze(cc), f)
    ctx.matching("rows", g["rows"], f["rows"])
    same(ctx, "set", g, f, skip=("rows", "lffd"))
    same(ctx, "untouched", freeze(solve_lffd(cc)), f)
    ctx.check("others", solve_lffd(3.0) == 3.0 and solve_lffd(None) is None)
    if len(f["res"]) > 2:
        ctx.check("solved", g["lffd"] is True)
        ctx.reach("three")


def pieces(ctx, fam, n, m, k=None, three=False):
    """counts of consecutive pieces"""
    from py_fatigue.cycle_count import CycleCount
    from py_fatigue.cycle_count.utils import solve_lffd

    xs = [signal(ctx, fam, n, k, "x"), signal(ctx, fam, m, k, "y")]
    if three:
        xs.append(signal(ctx, "raw", 2, None, "z"))
    ccs = []
    for i, x in enumerate(xs):
        ctx.assume(abs(x[1] - x[0]) >= 0.01)
        ccs.append(CycleCount.from_timeseries(
            ctx.array(x), timestamp=stamp(i), mean_bin_lower_bound=-1000.0,
            unit="kNm"))
    tot = ccs[0]
    for c in ccs[1:]:
        tot = tot + c
    f = freeze(tot)
    out = solve_lffd(tot)
    same(ctx, "orig", freeze(tot), f)
    g = freeze(out)
    seq = [v for c in ccs for v in c.residuals_sequence]
    cyc, _ = astm(reversals(seq))
    full = [x for x in f["rows"] if x[2] > 0.5]
    ctx.matching("rows", g["rows"], full + cyc)
    kept(ctx, f, g)
    halves(ctx, g)
    if fam == "alt":
        # the halves and closed cycles of the whole signal
        one = CycleCount.from_timeseries(ctx.array([v for x in xs for v in x]),
                                         mean_bin_lower_bound=-1000.0)
        ctx.matching("whole", g["rows"], rows(one))
    if any(x[2] == 1.0 for x in cyc):
        ctx.reach("closed")


def refuse(ctx, n):
    cc = count(ctx, n, nres=3)[0]
    for mode in ("foo", "", "min", "max", "residual", "all"):
        ctx.raises("mode:" + mode, ValueError, lambda: cc.solve_lffd(mode))
    cc2 = count(ctx, n, "b", residuals_sequence=None)[0]
    f = freeze(cc2)
    same(ctx, "none", freeze(cc2.solve_lffd()), f)


def cases(tier):
    big = tier == "thorough"
    cs = [
        Case("direct%d_%d" % p, direct, n=p[0], nres=p[1],
             bounds="%d rows, residual sequence of %d arbitrary values" % p,
             must_reach=["short"] if p[1] < 3 else
             (["closed"] if p[1] > 3 else []))
        for p in [(1, 0), (1, 2), (2, 3), (2, 4), (1, 5)]
        + ([(3, 5), (1, 6)] if big else [])
    ]
    cs += [
        Case("mode%d" % i, direct, n=1, nres=4, mode=m,
             kw=dict(_min_max_sequence=np_seq(5)) if "in" in m else None,
             bounds="1 row, 4 residuals, mode " + m)
        for i, m in enumerate(("residuals", "RESIDUALS", "min-max"))
    ]
    cs += [
        Case("solved", direct_solved, bounds="1 row, marked as resolved"),
    ]
    cs += [
        Case("single%d" % n, single, fam="raw", n=n,
             bounds="%d arbitrary samples" % n,
             must_reach=["three"] if n > 2 else [])
        for n in [2, 3, 4] + ([5] if big else [])
    ]
    cs += [
        Case("singlealt%d" % n, single, fam="alt", n=n,
             bounds="%d reversals" % n, must_reach=["three"])
        for n in [5] + ([6, 7] if big else [])
    ]
    cs += [
        Case("raw%d_%d" % p, pieces, fam="raw", n=p[0], m=p[1],
             bounds="pieces of %d and %d arbitrary samples" % p,
             must_reach=["closed"])
        for p in [(2, 2), (3, 2)] + ([(3, 3), (4, 2)] if big else [])
    ]
    cs += [
        Case("alt%d_%d" % p, pieces, fam="alt", n=p[0], m=p[1],
             bounds="pieces of %d and %d reversals" % p,
             must_reach=["closed"])
        for p in [(2, 2), (3, 3)] + ([(4, 3), (4, 4)] if big else [])
    ]
    cs.append(Case("three2_2", pieces, fam="raw", n=2, m=2, three=True,
                   bounds="three pieces of 2 samples",
                   must_reach=["closed"]))
    cs.append(Case("refuse", refuse, n=1, bounds="unknown modes"))
    cs.append(Case("direct300", direct, n=300, nres=3,
                   bounds="300 rows, the last one free"))
    return also(cs, "direct2_3", "raw2_2")


def np_seq(n):
    import numpy as np

    return np.array([3.0, -1.0, 4.0, -1.5, 5.0][:n])


def direct_solved(ctx):
    cc = count(ctx, 1, nres=4, lffd_solved=True)[0]
    f = freeze(cc)
    same(ctx, "asis", freeze(cc.solve_lffd()), f)
