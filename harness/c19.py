"""C19: unit guard and carried units."""
from engine.case import Case
from harness.counts import count, stamp

FUNCTIONS = ["damage.stress_life.get_pm",
             "damage.stress_life.PalmgrenMiner.damage",
             "damage.stress_life.get_nonlinear_damage",
             "damage.crack_growth.get_crack_growth",
             "damage.crack_growth.CrackGrowth.calc_growth",
             "cycle_count.utils.calc_aggregated_damage",
             "cycle_count.CycleCount.__add__",
             "cycle_count.CycleCount.__mul__",
             "cycle_count.CycleCount.solve_lffd",
             "cycle_count.CycleCount.mean_stress_correction",
             "cycle_count.CycleCount.to_df"]
ASSUMPTIONS = ["unit strings from the pool in this file, every pair",
               "a Paris curve's unit names the stress unit as a word "
               "(MPa √mm)"]
UNITS = ["MPa", "kPa", "Pa", "GPa", "mpa", "kNm", "ksi", "N/mm",
         "kN", "N", "mm"]
RULES = ["pavlou", "manson", "leve", "si jian"]
OPS = ["none", "add", "radd", "mul", "rmul", "lffd", "dnvgl", "walker", "swt"]


def entries(ctx, cc, unit, which):
    """call one entry point with a material of the given unit"""
    import numpy as np
    import pandas as pd
    from py_fatigue.cycle_count.utils import calc_aggregated_damage
    from py_fatigue.damage import crack_growth as cg
    from py_fatigue.damage import stress_life as sl
    from py_fatigue.geometry import InfiniteSurface
    from py_fatigue.material import ParisCurve, SNCurve

    if which in ("cg", "dfcg"):
        pc = ParisCurve(slope=3.0, intercept=1e-13, threshold=0.0,
                        critical=1e6, unit_string=unit + " √mm")
        geo = InfiniteSurface(initial_depth=1.0)
        if which == "cg":
            return cg.get_crack_growth(cc, pc, geo)
        return cc.to_df().cg.calc_growth(pc, geo)
    sn = SNCurve(slope=3.0, intercept=12.0, unit_string=unit)
    if which == "pm":
        return sl.get_pm(cc, sn)
    if which == "miner":
        return cc.to_df().miner.damage(sn)
    if which == "aggr":
        df = pd.DataFrame({"CC_a": [cc]})
        return calc_aggregated_damage(df, sn)
    return sl.get_nonlinear_damage(which, cc, sn)


def guard(ctx, which, n):
    u = ctx.choice("u", UNITS)
    v = ctx.choice("v", UNITS)
    cc = count(ctx, n, counts=(1.0,), hi=300.0, unit=u)[0]
    if u == v:
        entries(ctx, cc, v, which)
        ctx.reach("accepted")
    else:
        ctx.raises("mismatch", ValueError,
                   lambda: entries(ctx, cc, v, which))
        ctx.reach("refused")


def carry(ctx, length, n, u="MPa", ops=tuple(OPS)):
    """any sequence of operations keeps the unit"""
    import numpy as np

    def one(p, k, hours, c, **kw):
        cc, _, r, m, _ = count(
            ctx, k, p, counts=(c,), hours=hours, unit=u,
            residuals_sequence=np.array([0.0, 10.0, -20.0, 5.0, -1.0]),
            **kw)
        for a, b in zip(r, m):
            ctx.assume(b >= a)
        return cc

    cc = one("", n, 0, 1.0)
    hours = 24
    for i in range(length):
        op = ctx.choice("op%d" % i, list(ops))
        if op == "none":
            continue
        if op in ("add", "radd"):
            other = one("o%d" % i, 1, hours, 0.5,
                        lffd_solved=cc.lffd_solved)
            hours += 24
            if op == "radd":
                cc = sum([cc, other])
            else:
                cc = cc + other
        elif op == "mul":
            cc = cc * ctx.real("f%d" % i, lo=0.5, hi=4.0)
        elif op == "rmul":
            cc = ctx.real("f%d" % i, lo=0.5, hi=4.0) * cc
        elif op == "lffd":
            cc = cc.solve_lffd()
        else:
            kw = {"dnvgl": ("dnvgl-rp-c203", {"detail_factor": 0.8}),
                  "walker": ("walker", {"gamma": 0.5}),
                  "swt": ("swt", {})}[op]
            cc = cc.mean_stress_correction(correction_type=kw[0], **kw[1])
        ctx.check("unit:" + op, cc.unit == u)
        ctx.check("df:" + op, cc.to_df()._metadata["unit"] == u)
        ctx.reach(op)
    for w in ("pm", "cg"):
        ctx.raises("guard:" + w, ValueError,
                   lambda: entries(ctx, cc, "ksi", w))
    entries(ctx, cc, u, "pm")
    ctx.reach("done")


def mixed(ctx, n):
    """counts in different units are not added"""
    u = ctx.choice("u", UNITS)
    v = ctx.choice("v", UNITS)
    a = count(ctx, n, "a", counts=(1.0,), unit=u)[0]
    b = count(ctx, n, "b", counts=(1.0,), hours=24, unit=v)[0]
    if u == v:
        ctx.check("unit", (a + b).unit == u)
        ctx.reach("accepted")
    else:
        ctx.raises("add", TypeError, lambda: a + b)
        ctx.raises("sum", TypeError, lambda: sum([a, b]))
        ctx.reach("refused")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach, **p):
        cs.append(Case(name, fn, must_reach=reach, bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    for w in ["pm", "miner", "aggr", "cg", "dfcg"] + RULES:
        add("guard_" + w.replace(" ", "_"), guard, ["accepted", "refused"],
            which=w, n=2 if w in ("cg", "dfcg") else 1 if w == "aggr" else 2)
    add("mixed", mixed, ["accepted", "refused"], n=1)
    add("carry1", carry, ["done"] + OPS[1:], length=1, n=1)
    add("carry2", carry, ["done"] + OPS[1:], length=2, n=1, u="kNm")
    if big:
        add("carry3", carry, ["done"] + OPS[1:], length=3, n=1)
    return cs
