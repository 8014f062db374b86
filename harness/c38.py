"""C38: exported cycle counts can be stored as JSON."""
import json

from engine.case import Case
from harness.counts import count

FUNCTIONS = ["cycle_count.CycleCount.as_dict", "histogram.rainflow_binner",
             "histogram._build_binned_dict", "cycle_count.CycleCount.__add__",
             "cycle_count._handling_different_bins_in_sum",
             "cycle_count.CycleCount.__mul__",
             "cycle_count.CycleCount.solve_lffd",
             "cycle_count.CycleCount.mean_stress_correction",
             "cycle_count.CycleCount.from_rainflow"]
ASSUMPTIONS = ["bin settings and counts from the listed choices, as int or "
               "float; stresses arbitrary within the bounds",
               "the kinds of objects in the export are looked at on every "
               "path; JSON itself is written and read in the replays"]
GRID = {"float": (0.2, 5.0, -50.0, 40.0), "int": (0, 5, -50, 40),
        "none": (0.2, 5.0, None, 10)}


def plain(ctx, o, path=""):
    """lists, dicts with string keys, numbers, None"""
    import numpy as np

    if isinstance(o, dict):
        for k, v in o.items():
            if type(k) is not str:
                return path + ": key"
            bad = plain(ctx, v, path + "/" + k)
            if bad:
                return bad
        return None
    if isinstance(o, np.ndarray):
        return path + ": array"
    if isinstance(o, (list, tuple)):
        for v in o:
            bad = plain(ctx, v, path + "[]")
            if bad:
                return bad
        return None
    if o is None or isinstance(o, (str, bool, int, float)):
        return None
    if ctx.symbolic and isinstance(o, ctx.sym.SR):
        return None
    return "%s: %s" % (path, type(o).__name__)


def export(ctx, cc, **kw):
    d = cc.as_dict(**kw)
    bad = plain(ctx, d)
    ctx.check("plain" if bad is None else "plain %s" % bad, bad is None)
    if not ctx.symbolic and bad is None:
        ctx.check("json", json.loads(json.dumps(d)) == d)
    return d


def made(ctx, n, s, p="", hours=0, nres=2, counts=(1.0,), **kw):
    lb, w, mlb, mw = GRID[s]
    kw["_mean_bin_lower_bound"] = mlb
    if mlb is None and "means" not in kw:
        kw["means"] = [3.0, -4.0, 8.5]
    cc, c, r, m, res = count(
        ctx, n, p=p, counts=counts, nres=nres, hours=hours, lo=1.0,
        hi=9.0, range_bin_lower_bound=lb, range_bin_width=w,
        mean_bin_width=mw, nr_small_cycles=ctx.choice(p + "small", [0, 2]),
        **kw)
    for x in m:
        if isinstance(x, float):
            continue
        ctx.assume(x >= -10)
        ctx.assume(x <= 10)
    for x in res:
        ctx.assume(x >= -8)
        ctx.assume(x <= 8)
    if nres:
        ctx.assume(abs(res[0] - res[1]) >= 1)
    return cc


def simple(ctx, n, s, legacy, tol=None):
    kw = {"legacy_export": legacy}
    if tol is not None:
        kw["damage_tolerance_for_binning"] = tol
    mk = {"counts": (0.5, 1.0)} if n == 1 else {"means": [3.0]}
    export(ctx, made(ctx, n, s, **mk), **kw)
    ctx.reach("done")


def series(ctx, n, legacy, s, arr):
    from py_fatigue.cycle_count import CycleCount

    lb, w, _, mw = GRID[s]
    x = ctx.reals("x", n, lo=-10, hi=10)
    ctx.assume(abs(x[0] - x[1]) >= 1)
    cc = CycleCount.from_timeseries(
        ctx.array(x) if arr else list(x), range_bin_lower_bound=lb,
        range_bin_width=w, mean_bin_width=mw, mean_bin_lower_bound=-50)
    export(ctx, cc, legacy_export=legacy)
    ctx.reach("done")


def derived(ctx, what, s, legacy, t="float"):
    """exports of sums, scaled, resolved, corrected and re-read counts"""
    from py_fatigue.cycle_count import CycleCount

    kw = {"means": [3.0]}
    if "correct" in what:
        kw = {"ranges": [4.0], "lffd_solved": True}
    nres = 3 if what == "solve" else 2
    a = made(ctx, 1, s, nres=nres, **kw)
    if "correct" in what:
        ctx.assume(a.mean_stress[0] >= 1)
    if "sum" in what:
        a = a + made(ctx, 1, t, p="b", hours=2, nres=nres,
                     ranges=[4.0], means=[3.0])
    if "total" in what:
        a = sum([a, made(ctx, 1, t, p="b", hours=2, nres=nres,
                         ranges=[4.0], means=[3.0])])
    if "mul" in what:
        a = a * ctx.choice("f", [2, 0.5])
    if "solve" in what:
        a = a.solve_lffd()
    if "correct" in what:
        a = a.mean_stress_correction(detail_factor=0.8)
    if "read" in what:
        d = export(ctx, a, legacy_export=legacy)
        a = CycleCount.from_rainflow(d)
    export(ctx, a, legacy_export=legacy)
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, **p):
        cs.append(Case(name, fn, must_reach=["done"], bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    for legacy in (False, True):
        e = "_old" if legacy else ""
        for s in ("float", "int", "none"):
            add("one_%s%s" % (s, e), simple, n=1, s=s, legacy=legacy)
            add("sum_%s%s" % (s, e), derived, what="sum", s=s, legacy=legacy,
                t="int" if s == "int" else "none")
        add("two" + e, simple, n=2, s="int", legacy=legacy)
        add("coarse" + e, simple, n=2, s="float", legacy=legacy, tol=0.5)
        add("series" + e, series, n=3 + big, s="int", legacy=legacy, arr=True)
        add("list" + e, series, n=3, s="float", legacy=legacy, arr=False)
        for what in ("total", "mul", "solve", "correct", "read", "sum_read",
                     "sum_mul", "sum_solve"):
            if what in ("sum_mul", "sum_solve") and not big:
                continue
            add(what + e, derived, what=what, s="int", t="int",
                legacy=legacy)
    return cs
