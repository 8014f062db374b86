"""Symbolic cycle counts."""
import datetime as dt

T0 = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)


def relabel(df):
    """the table with row labels other than 0, 1, 2... and out of order"""
    n = len(df)
    df.index = [i if i % 2 else 10 * (n - i) for i in range(n)]
    return df


def stamp(h):
    return T0 + dt.timedelta(hours=h)


def given(i, mod, lo):
    return lo + 0.25 * (17 * i % mod)


def tail(ctx, n, p, counts, lo, hi, mlo, mhi, log, means, ranges):
    c, r, m = table(ctx, 1, p + "t", counts, lo, hi, mlo, mhi, log)
    few = [counts[i % len(counts)] for i in range(n - 1)]
    return few + c, ranges + r, means + m


def table(ctx, n, p="", counts=(0.5, 1.0), lo=0.01, hi=1000.0,
          mlo=-1000.0, mhi=1000.0, log=False, means=None, ranges=None):
    """n cycles: (counts, ranges, means) as lists; where means or ranges
    gives a number it is that number instead of a variable; of more than
    20 cycles only the last is free"""
    if n > 20:
        means = [given(i, 53, -26.0) for i in range(n - 1)]
        ranges = [given(i, 83, 3.0) for i in range(n - 1)]
        return tail(ctx, n, p, counts, lo, hi, mlo, mhi, log, means, ranges)
    means = (list(means or ()) + [None] * n)[:n]
    ranges = (list(ranges or ()) + [None] * n)[:n]
    c = [ctx.choice("%sc%d" % (p, i), counts) if len(counts) > 1
         else counts[0] for i in range(n)]
    r = [ctx.real("%sr%d" % (p, i), lo=lo, hi=hi, log=log)
         if ranges[i] is None else ranges[i] for i in range(n)]
    m = [ctx.real("%sm%d" % (p, i), lo=mlo, hi=mhi)
         if means[i] is None else means[i] for i in range(n)]
    return c, r, m


def count(ctx, n, p="", counts=(0.5, 1.0), nres=0, hours=0, log=False,
          lo=0.01, hi=1000.0, means=None, ranges=None, **kw):
    """a CycleCount holding a symbolic table; returns (cc, c, r, m, res)"""
    import numpy as np
    from py_fatigue.cycle_count import CycleCount

    c, r, m = table(ctx, n, p, counts, log=log, lo=lo, hi=hi, means=means,
                    ranges=ranges)
    res = ctx.reals(p + "s", nres, lo=-1000, hi=1000)
    kw.setdefault("_mean_bin_lower_bound", -1000.0)
    kw.setdefault("timestamp", stamp(hours))
    if nres:
        kw.setdefault("residuals_sequence", ctx.array(res))
    cc = CycleCount(
        count_cycle=np.array(c, dtype=float),
        stress_range=ctx.array(r),
        mean_stress=ctx.array(m),
        **kw)
    return cc, c, r, m, res


def rows(cc):
    return [(r, m, c) for r, m, c in
            zip(cc.stress_range, cc.mean_stress, cc.count_cycle)]


def same_rows(ctx, label, cc, exp):
    got = rows(cc)
    ctx.check(label + ":n", len(got) == len(exp))
    for i, (g, e) in enumerate(zip(got, exp)):
        for k, nm in enumerate(("range", "mean", "count")):
            ctx.eq("%s:%s" % (label, nm), g[k], e[k])


def freeze(cc):
    """everything a cycle count holds"""
    def arr(v):
        return None if v is None else [x for x in v]

    return {
        "rows": rows(cc), "ts": cc.timestamp, "unit": cc.unit,
        "rlb": cc.range_bin_lower_bound, "rw": cc.range_bin_width,
        "mlb": cc.mean_bin_lower_bound, "mw": cc.mean_bin_width,
        "small": cc.nr_small_cycles, "res": arr(cc.residuals_sequence),
        "mm": arr(cc.min_max_sequence), "lffd": cc.lffd_solved,
        "msc": cc.mean_stress_corrected,
        "scf": cc.stress_concentration_factor, "name": cc.name,
        "time": arr(cc.time_sequence.ravel()),
    }


def same(ctx, label, a, b, skip=()):
    """two freeze() pictures are equal"""
    for k in a:
        if k in skip:
            continue
        u, v = a[k], b[k]
        if k == "rows":
            ctx.check("%s:%s:n" % (label, k), len(u) == len(v))
            for x, y in zip(u, v):
                for p, q in zip(x, y):
                    ctx.eq("%s:%s" % (label, k), p, q)
        elif isinstance(u, list) and isinstance(v, list):
            ctx.check("%s:%s:n" % (label, k), len(u) == len(v))
            for x, y in zip(u, v):
                ctx.eq("%s:%s" % (label, k), x, y)
        elif isinstance(u, list) or isinstance(v, list):
            ctx.check("%s:%s" % (label, k), False)
        else:
            ctx.eq("%s:%s" % (label, k), u, v)
