"""C28: inputs are never modified."""
from engine.case import Case
from harness.counts import count, freeze, same, stamp
from harness.signals import make, signal

FUNCTIONS = ["cycle_count.CycleCount (as_dict, to_df, __add__, __mul__, "
             "solve_lffd, mean_stress_correction, properties)",
             "cycle_count.pbar_sum", "cycle_count.histogram.rainflow_binner",
             "cycle_count.histogram (make_histogram, map_hist, "
             "binned_rainflow)",
             "damage.stress_life (get_pm, get_des, get_dem, calc_pm, "
             "calc_des, calc_dem, get_nonlinear_damage)",
             "damage.crack_growth.get_crack_growth",
             "mean_stress.corrections", "rainflow.rainflow",
             "rainflow.findtp", "rainflow.findrfc_astm",
             "cycle_count.CycleCount.from_timeseries",
             "material.SNCurve (get_cycles, get_stress)",
             "material.ParisCurve (get_growth_rate, get_sif)"]
ASSUMPTIONS = ["from_rainflow() adds defaults to the dictionary it reads and "
               "table accessors add result columns, both by design",
               "bin widths chosen so that a few bins cover the ranges",
               "residual sequence fixed and alternating"]

OPS = ["dict", "legacy", "df", "add", "radd", "sum", "mul", "rmul", "lffd",
       "dnvgl", "walker", "swt", "pm", "des", "dem", "nonlin", "crack",
       "look", "miner", "grow", "gassner", "eq"]
COUNTS = ["add", "radd", "sum", "mul", "rmul", "lffd", "dnvgl", "walker",
          "swt"]


def cc_of(ctx, p, n, hours, counts=(1.0, 0.5), width=60.0, **kw):
    import numpy as np

    k = 1 if p == "" else 0  # one cycle below the lower bound
    cc, c, r, m, _ = count(
        ctx, n + k, p, counts=(counts[0],),
        ranges=(None,) * n + (0.25,), means=(None,) * n + (150.0,),
        hours=hours, unit="MPa", lo=1.0,
        hi=100.0, range_bin_lower_bound=0.5, range_bin_width=width,
        mean_bin_width=150.0,
        residuals_sequence=np.array([0.0, 10.0, -20.0, 5.0, -1.0]), **kw)
    for a, b in zip(r, m):
        ctx.assume(b >= a)
        ctx.assume(b <= 200.0)
    return cc


def given_count(ctx, n):
    import numpy as np
    from py_fatigue.cycle_count import CycleCount

    r = [ctx.choice("r%d" % i, [3.0, 70.0]) for i in range(n)]
    return CycleCount(
        count_cycle=np.ones(n), stress_range=np.array(r),
        mean_stress=np.array([150.0, 80.0, 99.0][:n]), unit="MPa",
        timestamp=stamp(0), range_bin_lower_bound=0.5, range_bin_width=60.0,
        _mean_bin_lower_bound=-1000.0, mean_bin_width=150.0,
        residuals_sequence=np.array([0.0, 10.0, -20.0, 5.0, -1.0]))


def apply(ctx, cc, op, i):
    """returns a cycle count or None"""
    import numpy as np
    from py_fatigue.cycle_count.cycle_count import pbar_sum
    from py_fatigue.damage import crack_growth as cg
    from py_fatigue.damage import stress_life as sl
    from py_fatigue.geometry import InfiniteSurface
    from py_fatigue.material import ParisCurve, SNCurve

    watch = []
    out = None
    if op in ("dict", "legacy"):
        d = cc.as_dict(legacy_export=op == "legacy",
                       damage_tolerance_for_binning=0.5)
        for k in d:  # editing the export is the user's business
            if isinstance(d[k], list):
                d[k].clear()
    elif op == "df":
        df = cc.to_df()
        df["stress_range"] = 0.0
        df.iloc[0, 0] = -1.0
    elif op in ("add", "radd", "sum"):
        other = cc_of(ctx, "o%d" % i, 1, 24 * (i + 1), width=1000.0,
                      lffd_solved=cc.lffd_solved,
                      mean_stress_corrected=cc.mean_stress_corrected,
                      stress_concentration_factor=(
                          cc.stress_concentration_factor))
        watch.append((other, freeze(other)))
        if op == "add":
            out = cc + other
        elif op == "radd":
            out = sum([cc, other])
        else:
            lst = [cc, None, other]
            out = pbar_sum(lst)
            ctx.check("list", len(lst) == 3 and lst[0] is cc
                      and lst[1] is None and lst[2] is other)
    elif op == "mul":
        out = cc * 2.5
    elif op == "rmul":
        out = 0.75 * cc
    elif op == "lffd":
        out = cc.solve_lffd()
    elif op in ("dnvgl", "walker", "swt"):
        kw = {"dnvgl": ("dnvgl-rp-c203", {"detail_factor": 0.8}),
              "walker": ("walker", {"gamma": 0.5}),
              "swt": ("swt", {})}[op]
        out = cc.mean_stress_correction(correction_type=kw[0], **kw[1])
    elif op == "look":
        for a in ("min_max_sequence", "residuals", "full_cycles",
                  "half_cycles", "bin_centers", "bin_edges",
                  "stress_amplitude", "min_stress", "max_stress",
                  "statistical_moments", "range_bin_upper_bound",
                  "mean_bin_upper_bound"):
            getattr(cc, a)
        str(cc)
    elif op == "eq":
        ctx.check("self", cc == cc)
        cc == 3
    elif op in ("crack", "grow"):
        pc = ParisCurve(slope=3.0, intercept=1e-13, threshold=0.0,
                        critical=1e6, unit_string="MPa √mm")
        geo = InfiniteSurface(initial_depth=1.0)
        g = dict(geo.__dict__)
        if op == "crack":
            cg.get_crack_growth(cc, pc, geo)
        else:
            cc.to_df().cg.calc_growth(pc, geo)
        ctx.check("geometry", dict(geo.__dict__) == g)
        curve_same(ctx, pc, [3.0], [1e-13])
    elif op == "des":
        sl.get_des(cc, 3.0)
    elif op == "dem":
        sl.get_dem(2.0, 1.0, cc, 3.0)
    else:
        sn = SNCurve(slope=3.0, intercept=12.0, unit_string="MPa")
        if op == "pm":
            sl.get_pm(cc, sn)
        elif op == "nonlin":
            sl.get_nonlinear_damage("leve", cc, sn)
        else:
            df = cc.to_df()
            cols = {k: list(df[k]) for k in ("count_cycle", "stress_range",
                                             "mean_stress")}
            if op == "miner":
                df.miner.damage(sn)
                df = cc.to_df()
                df.miner.des(3.0)
            else:
                df.gassner.g(sn)
            for k in cols:
                ctx.eq_list("column", list(df[k]), cols[k])
        curve_same(ctx, sn, [3.0], [12.0])
    for o, f in watch:
        same(ctx, "other", freeze(o), f)
    return out


def curve_same(ctx, c, slope, intercept):
    ctx.check("curve", [float(x) for x in c.slope] == slope
              and [float(x) for x in c.intercept] == intercept
              and c.unit.startswith("MPa"))


def pair(ctx, first, n, second=tuple(OPS), width=60.0, given=False):
    """two operations one after the other"""
    if given:  # corrected ranges are roots: numbers when they are binned
        cc = given_count(ctx, n)
    else:
        cc = cc_of(ctx, "", n, 0, width=width)
    f = freeze(cc)
    a = apply(ctx, cc, first, 0)
    same(ctx, "one", freeze(cc), f)
    op = ctx.choice("op", list(second))
    if a is None:
        apply(ctx, cc, op, 1)
    else:
        g = freeze(a)
        apply(ctx, a, op, 1)
        same(ctx, "result", freeze(a), g)
        apply(ctx, cc, op, 2)
        same(ctx, "result", freeze(a), g)
    same(ctx, "two", freeze(cc), f)
    ctx.reach(op)


def counting(ctx, fam, n, k=None, kind="array"):
    """signals and times"""
    from py_fatigue.cycle_count import CycleCount
    import py_fatigue.cycle_count.rainflow as rf
    from py_fatigue.cycle_count.histogram import binned_rainflow

    x = signal(ctx, fam, n, k)
    ctx.assume(abs(x[1] - x[0]) >= 0.01)
    t = [float(i) for i in range(n)]
    what = ctx.choice("what", ["rainflow", "timed", "findtp", "extrema",
                               "cross", "cc", "cct", "binned"])
    X, T = make(ctx, x, kind), make(ctx, t, kind)
    if what == "rainflow":
        rf.rainflow(X)
    elif what == "timed":
        rf.rainflow(X, T)
    elif what == "findtp":
        X = ctx.array(x)
        rf.findtp(X)
    elif what == "extrema":
        X = ctx.array(x)
        rf.findextrema(X)
    elif what == "cross":
        X = ctx.array(x)
        rf.findcross(X, 0.25)
    elif what == "binned":
        binned_rainflow(X, T, range_bin_lower_bound=0.0,
                        range_bin_width=3000.0, mean_bin_lower_bound=-1000.0,
                        mean_bin_width=3000.0)
    else:
        kw = {"time": T} if what == "cct" else {}
        cc = CycleCount.from_timeseries(X, timestamp=stamp(0),
                                        mean_bin_lower_bound=-1000.0, **kw)
        f = freeze(cc)
        cc.solve_lffd()
        same(ctx, "cc", freeze(cc), f)
    ctx.eq_list("signal", list(X), x)
    ctx.eq_list("time", list(T), t)
    ctx.check("kind", type(X) is type(make(ctx, x, kind))
              or what in ("findtp", "extrema", "cross"))
    ctx.reach(what)


def arrays(ctx, n, kind):
    """functions on arrays and lists"""
    import numpy as np
    from py_fatigue.cycle_count import histogram as h
    from py_fatigue.damage import stress_life as sl
    from py_fatigue.material import ParisCurve, SNCurve
    from py_fatigue.mean_stress import corrections as mc
    from py_fatigue.utils import chunks, compare

    s = [ctx.pos("s%d" % i, 1.0, 100.0) for i in range(n)]
    c = [1.0, 0.5, 3.0][:n]
    m = [ctx.real("m%d" % i, lo=100, hi=200) for i in range(n)]
    S, C, M = (make(ctx, v, kind) for v in (s, c, m))
    AS, AM = ctx.array(s), ctx.array(m)
    sn = SNCurve(slope=[3.0, 5.0], intercept=[12.0, 16.0])
    pc = ParisCurve(slope=[3.0, 2.5], intercept=[1e-13, 1e-11],
                    threshold=0.5, critical=1e6)
    fns = {
        "pm": lambda: sl.calc_pm(S, C, sn),
        "des": lambda: sl.calc_des(S, C, 3.0),
        "dem": lambda: sl.calc_dem(2.0, 1.0, S, C, 3.0),
        "nonlin": lambda: sl.calc_nonlinear_damage("leve", S, C, sn),
        "cycles": lambda: sn.get_cycles(S),
        "stress": lambda: sn.get_stress(S),
        "rate": lambda: pc.get_growth_rate(S),
        "sif": lambda: pc.get_sif(S),
        "dnvgl": lambda: mc.dnvgl_mean_stress_correction(AM, AS, 0.8),
        "walker": lambda: mc.walker_mean_stress_correction(AM, AS, 0.5),
        "swt": lambda: mc.swt_mean_stress_correction(AM, AS),
        "hist": lambda: h.make_histogram(AM, AS, bins=[
            np.array([0.0, 150.0, 200.0]), np.array([0.0, 200.0])]),
        "chunks": lambda: list(chunks(S, 2)),
        "compare": lambda: compare(AS, AM),
    }
    what = ctx.choice("what", sorted(fns))
    fns[what]()
    for lab, a, b in (("ranges", S, s), ("counts", C, c), ("means", M, m),
                      ("ranges", AS, s), ("means", AM, m)):
        ctx.eq_list(lab, list(a), b)
    ctx.check("curves", [float(x) for x in sn.slope] == [3.0, 5.0]
              and [float(x) for x in sn.intercept] == [12.0, 16.0]
              and [float(x) for x in pc.slope] == [3.0, 2.5]
              and [float(x) for x in pc.intercept] == [1e-13, 1e-11]
              and pc.threshold == 0.5 and pc.critical == 1e6)
    ctx.reach(what)


def lookup(ctx):
    """map_hist leaves the histogram alone"""
    import numpy as np
    from py_fatigue.cycle_count.histogram import map_hist

    x, y = ctx.reals("x", 2, lo=-10, hi=10), ctx.reals("y", 2, lo=-10, hi=10)
    hh = ctx.reals("h", 4, lo=0, hi=10)
    X, Y, H = ctx.array(x), ctx.array(y), ctx.array(hh, (2, 2))
    e = (np.array([-5.0, 0.0, 5.0]), np.array([-7.0, 1.0, 5.0]))
    map_hist(X, Y, H, e)
    ctx.eq_list("x", list(X), x)
    ctx.eq_list("y", list(Y), y)
    ctx.eq_list("h", [H[i, j] for i in range(2) for j in range(2)], hh)
    ctx.check("edges", list(e[0]) == [-5.0, 0.0, 5.0]
              and list(e[1]) == [-7.0, 1.0, 5.0])
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach, **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())) or "two points", **p))

    for op in OPS:
        if op in ("walker", "swt"):
            sec = tuple(o for o in OPS if o not in ("dict", "legacy", "look"))
            add("pair_" + op, pair, sec, first=op, n=2 if big else 1,
                width=1000.0, second=sec)
            sec = ("dict", "legacy", "look")
            add("given_" + op, pair, sec, first=op, n=2, second=sec,
                given=True)
            continue
        add("pair_" + op, pair, OPS, first=op, n=2 if big else 1,
            width=1000.0 if op in ("add", "radd", "sum") else 60.0)
    sig = ["rainflow", "timed", "findtp", "extrema", "cross", "cc", "cct",
           "binned"]
    add("signal_array", counting, sig, fam="raw", n=4)
    add("signal_list", counting, sig, fam="raw", n=4, kind="list")
    add("signal_alt", counting, sig, fam="alt", n=5 if not big else 6)
    arr = ["pm", "des", "dem", "nonlin", "cycles", "stress", "rate", "sif",
           "dnvgl", "walker", "swt", "hist", "chunks", "compare"]
    for k in ("array", "list"):
        add("arrays_" + k, arrays, arr, n=2 if not big else 3, kind=k)
    add("lookup", lookup, ["done"])
    return cs
