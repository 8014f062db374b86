"""C24: crack growth."""
import math
import types

from engine.case import Case
from harness.c23 import EPS
from harness.counts import relabel, stamp
from harness.warm import also

FUNCTIONS = ["damage.crack_growth.CalcCrackGrowth",
             "damage.crack_growth.get_sif",
             "damage.crack_growth.get_geometry_factor",
             "damage.crack_growth.get_crack_growth",
             "damage.crack_growth.CrackGrowth.calc_growth",
             "geometry.cylinder.f_hol_cyl_01",
             "utils.split", "utils.to_numba_dict"]
ASSUMPTIONS = ["slopes and cycle numbers from a grid; ranges, initial depth, "
               "intercepts, threshold and critical value arbitrary within the "
               "bounds", "stress intensities not within 1e-6 (relative) of "
               "threshold, critical value or a knee, growth per block not "
               "within 1e-6 of tenfold",
               "a tube's geometry factor is taken from f_hol_cyl_01 itself "
               "(decided in C25)"]


def curve(ctx, k, slopes, th, cr):
    o = types.SimpleNamespace(ms=[float(m) for m in slopes])
    o.ii = [ctx.pos("i%d" % j, 1e-16, 1e-6) for j in range(k)]
    o.th = ctx.pos("th", 5.0, 500.0) if th else 0.0
    o.cr = ctx.pos("cr", 500.0, 1e4) if cr else float("inf")
    li = [ctx.log(x) for x in o.ii]
    o.lk = [(li[j] - li[j + 1]) / (o.ms[j + 1] - o.ms[j])
            for j in range(k - 1)]
    pts = (([ctx.log(o.th)] if th else []) + o.lk +
           ([ctx.log(o.cr)] if cr else []))
    for a, b in zip(pts, pts[1:]):
        ctx.assume(b - a >= EPS)
    return o


def away(ctx, x, y):
    ctx.assume(ctx.either(x >= y * (1 + EPS), x <= y * (1 - EPS)))


def history(ctx, o, blocks, d0, factor):
    """expected (depths, sifs, factors, done, failed)"""
    d, depth, sif, fac = d0, [], [], []
    for s, c in blocks:
        y = factor(d)
        if y is None:
            ctx.reach("through")
            return depth, sif, fac, True
        k = s * (math.pi * d) ** 0.5 * y
        if o.cr != float("inf"):
            away(ctx, k, o.cr)
            if bool(k > o.cr):
                ctx.reach("critical")
                return depth, sif, fac, True
        new = d
        small = False
        if not (isinstance(o.th, float) and o.th == 0.0):
            away(ctx, k, o.th)
            small = bool(k < o.th)
        if small:
            ctx.reach("threshold")
        else:
            j = 0
            for q in o.lk:
                lk = ctx.log(k)
                ctx.assume(abs(lk - q) >= EPS)
                if bool(lk > q):
                    j += 1
            new = d + o.ii[j] * k ** o.ms[j] * c
            away(ctx, new, 10 * d)
            if bool(new > 10 * d):
                ctx.reach("jump")
                return depth, sif, fac, True
            ctx.reach("grow")
        depth.append(d)
        sif.append(k)
        fac.append(y)
        d = new
    ctx.reach("survived")
    return depth, sif, fac, False


def compare(ctx, cg, exp, counts, kept=True):
    depth, sif, fac, failed = exp
    n = len(depth)
    ctx.check("failure", bool(cg.failure) == failed)
    ctx.check("lengths", len(cg.crack_depth) == n and len(cg.sif) == n and
              len(cg.geometry_factor) == n)
    ctx.eq_list("depth", list(cg.crack_depth), depth)
    ctx.eq_list("sif", list(cg.sif), sif)
    ctx.eq_list("factor", list(cg.geometry_factor), fac)
    tot = 0.0
    for c in counts[:n]:
        tot = tot + c
    ctx.eq("cycles", cg.final_cycles, tot)
    for a, b in zip(depth, depth[1:]):
        ctx.le("never shrinks", a, b)


def one(d):
    return 1.0


def direct(ctx, k, slopes, n, th=True, cr=True, sym=False):
    """the integration class on any block history"""
    import numpy as np
    from py_fatigue.damage.crack_growth import CalcCrackGrowth
    from py_fatigue.utils import to_numba_dict

    o = curve(ctx, k, slopes, th, cr)
    d0 = ctx.pos("d0", 0.1, 10.0)
    s = [ctx.pos("s%d" % i, 1.0, 500.0) for i in range(n)]
    c = [ctx.pos("c%d" % i, 0.5, 1e5) if sym else (1.0, 0.5, 2.0)[i % 3]
         for i in range(n)]
    exp = history(ctx, o, list(zip(s, c)), d0, one)
    cg = CalcCrackGrowth(ctx.array(s), ctx.array(c), np.array(o.ms),
                         ctx.array(o.ii), o.th, o.cr, "INF_SUR_00",
                         to_numba_dict({"initial_depth": d0}))
    compare(ctx, cg, exp, c)


def blocks_of(c, express):
    """the blocks a row of c cycles is applied in"""
    full = int(c)
    n = full
    if express and c > 0:
        n = min(full, 10 ** int(math.log10(c))) if c >= 1 else 0
    out = [full // n + (1 if i < full % n else 0)
           for i in range(n)] if n else []
    if c % 1 or c == 0:
        out.append(c % 1)
    return [float(x) for x in out]


def cc_of(ctx, s, c):
    import numpy as np
    from py_fatigue.cycle_count import CycleCount

    return CycleCount(count_cycle=np.array(c), stress_range=ctx.array(s),
                      mean_stress=np.zeros(len(s)), timestamp=stamp(0))


def spectrum(ctx, counts, k=1, slopes=(2,), th=False, cr=False,
             express=False, low=False, table=False):
    """rows with several cycles each"""
    from py_fatigue.damage.crack_growth import get_crack_growth
    from py_fatigue.geometry import InfiniteSurface
    from py_fatigue.material import ParisCurve

    o = curve(ctx, k, slopes, th, cr)
    d0 = ctx.pos("d0", 0.1, 10.0)
    s = [ctx.pos("s%d" % i, 1.0, 500.0) for i in range(len(counts))]
    if low:  # below the threshold: long histories stay small
        for x in s:
            ctx.assume(x * (math.pi * d0) ** 0.5 <= o.th * (1 - EPS))
    many = max(counts) > 1
    per = [blocks_of(c, express) if many else [c] for c in counts]
    bl = [(x, b) for x, bs in zip(s, per) for b in bs]
    exp = history(ctx, o, bl, d0, one)
    cc = cc_of(ctx, s, counts)
    pc = ParisCurve(slope=o.ms, intercept=list(o.ii), threshold=o.th,
                    critical=o.cr)
    geo = InfiniteSurface(initial_depth=d0)
    if not table:
        cg = get_crack_growth(cc, pc, geo, express_mode=express)
        if sum(len(b) for b in per) == len(cg.count_cycle):
            ctx.eq_list("blocks", sorted(list(cg.count_cycle)),
                        sorted(b for _, b in bl))
        compare(ctx, cg, exp, [b for _, b in bl])
        same_rows(ctx, cc, s, counts)
        ctx.reach("done")
        return
    df = cc.to_df()
    if table == "labels":
        df = relabel(df)
    df = df.cg.calc_growth(pc, geo, express_mode=express)
    depth, sif, fac, failed = exp
    ctx.check("rows", len(df) == len(counts))
    cum, pos = 0.0, 0
    for i, bs in enumerate(per):
        last = pos + len(bs) - 1
        if last < len(depth):
            cum = sum(b for _, b in bl[:last + 1])
            want = (depth[last], sif[last], cum, fac[last])
            for col, v in zip(("crack_depth", "sif", "cumul_cycle",
                               "geometry_factor"), want):
                ctx.eq("table:" + col, df[col].values[i], v)
            ctx.reach("row")
        else:
            for col in ("crack_depth", "sif", "cumul_cycle",
                        "geometry_factor"):
                v = df[col].values[i]
                ctx.check("empty:" + col, bool(v != v))
            ctx.reach("empty")
        pos += len(bs)
    tot = 0.0
    for _, b in bl[:len(depth)]:
        tot = tot + b
    ctx.eq("final", df.final_cycles, tot)
    ctx.reach("done")


def same_rows(ctx, cc, s, counts):
    ctx.eq_list("ranges kept", list(cc.stress_range), s)
    ctx.eq_list("counts kept", list(cc.count_cycle), list(counts))


def tube(ctx, mode, depths, ratio=2.0, dims=(200.0, 10.0)):
    """hollow cylinder: the factor enters the intensity, a crack through the
    wall fails"""
    import numpy as np
    from py_fatigue.damage.crack_growth import CalcCrackGrowth
    from py_fatigue.geometry.cylinder import f_hol_cyl_01
    from py_fatigue.utils import to_numba_dict

    o = curve(ctx, 1, (2,), mode != "through", mode == "one")
    d0 = ctx.choice("d0", depths)
    geo = to_numba_dict({
        "initial_depth": d0, "outer_diameter": dims[0], "thickness": dims[1],
        "height": 1000.0, "width_to_depth_ratio": ratio})
    s = [ctx.pos("s%d" % i, 1.0, 5e3) for i in range(1 + (mode != "one"))]
    c = [ctx.pos("c0", 1.0, 1e6), 1.0][:len(s)]
    y0 = float(f_hol_cyl_01(d0, geo))
    ctx.check("positive", y0 > 0)
    k0 = s[0] * (math.pi * d0) ** 0.5 * y0
    if mode == "still":  # no growth in the first block
        ctx.assume(k0 <= o.th * (1 - EPS))
    if mode == "through":  # the first block takes the crack through
        new = d0 + o.ii[0] * k0 ** 2.0 * c[0]
        ctx.assume(new >= dims[1] * (1 + EPS))

    def factor(d):
        return y0 if d is d0 else None

    exp = history(ctx, o, list(zip(s, c)), d0, factor)
    cg = CalcCrackGrowth(ctx.array(s), ctx.array(c), np.array(o.ms),
                         ctx.array(o.ii), o.th, o.cr, "HOL_CYL_01", geo)
    compare(ctx, cg, exp, c)


def refuse(ctx):
    from py_fatigue.damage.crack_growth import get_crack_growth
    from py_fatigue.geometry.cylinder import Cylinder, HollowCylinder
    from py_fatigue.material import ParisCurve

    s = ctx.pos("s", 1.0, 500.0)
    cc = cc_of(ctx, [s], [1.0])
    pc = ParisCurve(slope=3.0, intercept=1e-12)
    for g in (Cylinder(initial_depth=1.0, diameter=10.0, height=10.0),
              HollowCylinder(initial_depth=1.0, outer_diameter=100.0,
                             thickness=10.0, height=10.0,
                             crack_position="internal")):
        ctx.raises("geometry", ValueError,
                   lambda: get_crack_growth(cc, pc, g))
        ctx.raises("geometry", ValueError,
                   lambda: cc.to_df().cg.calc_growth(pc, g))
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=("done",), **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    for nm, k, sl in (("m2", 1, (2,)), ("m3", 1, (3,)), ("m3h", 1, (3.5,)),
                      ("m5_3", 2, (5, 3))):
        for th, cr in ((True, True), (False, False), (True, False),
                       (False, True)):
            e = nm + ("_t" if th else "") + ("_c" if cr else "")
            r = ["survived", "jump", "grow"] + (
                ["threshold"] if th else []) + (["critical"] if cr else [])
            add("n1_" + e, direct, r, k=k, slopes=sl, n=1, th=th, cr=cr,
                sym=True)
            if k == 1:
                add("n2_" + e, direct, r, k=k, slopes=sl, n=2, th=th, cr=cr,
                    sym=nm != "m3h")
    add("n3_m2", direct, ["survived"], k=1, slopes=(2,), n=3, th=False,
        cr=False)
    add("n3_m2_t", direct, ["survived"], k=1, slopes=(2,), n=3, th=True,
        cr=False)
    if big:
        for nm, sl in (("m2", (2,)), ("m3", (3,)), ("m4", (4,))):
            for th, cr in ((True, True), (False, False)):
                e = nm + ("_tc" if th else "")
                add("deep3_" + e, direct, ["survived"], k=1, slopes=sl, n=3,
                    th=th, cr=cr, sym=True)
            add("deep4_" + nm, direct, ["survived"], k=1, slopes=sl, n=4,
                th=False, cr=False)
        add("n2_m5_3", direct, ["survived"], k=2, slopes=(5, 3), n=2)
    for tab in (False, True):
        t = "df_" if tab else "cc_"
        for nm, c in (("2", (2.0,)), ("1", (1.0, 1.0)), ("h", (0.5, 1.0)),
                      ("21", (2.0, 1.0)), ("12", (1.0, 2.0)),
                      ("2h", (2.5,)), ("h2", (0.5, 2.0)), ("3", (3.0,))):
            add(t + nm, spectrum, counts=c, table=tab)
            if big:
                add(t + nm + "_tc", spectrum, counts=c, table=tab, th=True,
                    cr=True)
        add(t + "tc", spectrum, counts=(1.0, 2.0), table=tab, th=True,
            cr=True)
        for nm, c in (("e5", (5.0, 3.5)), ("e1", (0.5, 7.0)),
                      ("e1_", (1.0, 1.5))):
            add(t + nm, spectrum, counts=c, express=True, table=tab)
        for nm, c in (("low_e", (25.0, 3.0, 110.5)), ("low_e2", (12.0, 0.25)),
                      ):
            add(t + nm, spectrum, counts=c, express=True, table=tab, th=True,
                low=True)
        add(t + "low", spectrum, counts=(7.0, 0.5, 3.25), table=tab, th=True,
            low=True)
        add(t + "zero", spectrum, counts=(0.0, 2.0), table=tab)
        add(t + "zero_e", spectrum, counts=(0.0, 12.0, 0.5), express=True,
            table=tab, th=True, low=True)
    add("df_labels", spectrum, counts=(1.0, 2.0, 0.5), table="labels")
    add("df_labels1", spectrum, counts=(1.0, 0.5, 1.0), table="labels")
    deep = (0.5, 2.0, 7.0)
    add("tube_one", tube, ["survived", "jump", "critical", "threshold"],
        mode="one", depths=deep)
    add("tube_still", tube, ["survived", "threshold"], mode="still",
        depths=deep)
    add("tube_through", tube, ["through"], mode="through",
        depths=(2.0, 7.0))
    add("tube_wide", tube, ["survived"], mode="still", depths=(1.0, 5.0),
        ratio=1.0, dims=(60.0, 6.0))
    add("refuse", refuse)
    return also(cs, "n1_m3_t_c", "cc_21", "df_1")
