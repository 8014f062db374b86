"""C16: Palmgren-Miner damage."""
from engine.case import Case
from harness.counts import count, given, relabel, stamp
from harness.curves import sn_curve
from harness.warm import also

FUNCTIONS = ["damage.stress_life.calc_pm", "damage.stress_life.get_pm",
             "damage.stress_life.PalmgrenMiner.damage",
             "material.SNCurve.get_cycles",
             "material.sn_curve._calc_cycles",
             "material.sn_curve._check_param_couple_types",
             "cycle_count.CycleCount.to_df"]
ASSUMPTIONS = ["slopes from a grid; intercepts, ranges, counts and endurance "
               "arbitrary within the bounds",
               "cycles not within 1e-4 (log10) of the endurance"]


def life(ctx, sn, s, apart=False):
    """natural log of the life at s, None when endless"""
    ls, best = ctx.log(s), None
    for m, a in zip(sn.ms, sn.aa):
        v = a * LN10 - m * ls
        if apart and best is not None:
            ctx.assume(abs(v - best) >= 1e-6)
        if best is None or bool(v > best):
            best = v
    if sn.end is not None:
        le = ctx.log(sn.end)
        ctx.assume(abs(best - le) >= 1e-4)
        if bool(best > le):
            ctx.reach("endless")
            return None
    ctx.reach("finite")
    return best


LN10 = 2.302585092994046


def spectrum(ctx, n, sym=True, counts=(0.5, 1.0), p="", log=True):
    if n > 20:  # only the last cycle is free
        s, c = spectrum(ctx, 1, sym, counts, p, log)
        return ([given(i, 83, 3.0) for i in range(n - 1)] + s,
                [(1.0, 0.5)[i % 2] for i in range(n - 1)] + c)
    s = [ctx.pos("%ss%d" % (p, i), 1e-1, 1e3, log=log) for i in range(n)]
    if sym:
        c = [ctx.pos("%sc%d" % (p, i), 0.5, 1e6, log=log)
             for i in range(n)]
    else:
        c = [ctx.choice("%sc%d" % (p, i), counts) for i in range(n)]
    return s, c


def ratio(ctx, label, d, c, L):
    if L is None:
        ctx.check(label + ":none", not ctx.infinite(d))
        ctx.eq(label + ":none", d, 0.0)
    else:
        ctx.eq(label, ctx.log(d), ctx.log(c) - L)


def ratios(ctx, k, slopes, n, end=False, route="calc", counts=False,
           form="list"):
    """each cycle contributes count / life"""
    import numpy as np
    from py_fatigue.cycle_count import CycleCount
    from py_fatigue.damage.stress_life import calc_pm, get_pm

    sn = sn_curve(ctx, k, slopes, form, end)
    if sn.refused:
        return
    s, c = spectrum(ctx, n, not counts)
    arr = np.array(c) if counts else ctx.array(c)
    if route == "calc":
        d = calc_pm(ctx.array(s), arr, sn.curve)
    elif route == "list":
        d = calc_pm(list(s), list(c), sn.curve)
    elif route == "number":
        d = calc_pm(s[0], c[0], sn.curve)
    else:
        cc = CycleCount(count_cycle=arr, stress_range=ctx.array(s),
                        mean_stress=np.zeros(n), timestamp=stamp(0))
        if route == "cc":
            d = get_pm(cc, sn.curve)
        else:
            df = cc.to_df()
            if route == "dfi":
                df = relabel(df)
            out = df.miner.damage(sn.curve)
            d = list(out["pm_damage"])
            N = list(out["cycles_to_failure"])
            ctx.check("rows", len(out) == n and len(N) == n)
            ctx.eq_list("kept", list(out["stress_range"]), s)
            ctx.eq_list("keptc", list(out["count_cycle"]), c)
    d = list(d)
    ctx.check("n", len(d) == n)
    for i in range(n):
        L = life(ctx, sn, s[i])
        ratio(ctx, "ratio", d[i], c[i], L)
        if route[:2] == "df":
            if L is None:
                ctx.check("life", ctx.infinite(N[i]))
            else:
                ctx.eq("life", ctx.log(N[i]), L)


def total(ctx, n, m, k, slopes, end=False):
    """additive over added counts, independent of the order"""
    import numpy as np
    from py_fatigue.damage.stress_life import calc_pm, get_pm

    sn = sn_curve(ctx, k, slopes, "list", end)
    if sn.refused:
        return
    a, ca, ra, _, _ = count(ctx, n, "a", log=True, lo=0.1, hi=1e3)
    b, cb, rb, _, _ = count(ctx, m, "b", hours=1, log=True, lo=0.1, hi=1e3)
    da, db = list(get_pm(a, sn.curve)), list(get_pm(b, sn.curve))
    ds = list(get_pm(a + b, sn.curve))
    ctx.check("n", len(ds) == n + m)
    exp = da + db
    tot, tos = 0.0, 0.0
    for x, y in zip(exp, ds):
        tot, tos = tot + x, tos + y
        ctx.eq("each", y, x)
    ctx.eq("sum", tos, tot)
    r, c = ra + rb, ca + cb
    back = list(calc_pm(ctx.array(r[::-1]), np.array(c[::-1]), sn.curve))
    for x, y in zip(back[::-1], ds):
        ctx.eq("order", x, y)
    ctx.eq("np", np.sum(get_pm(a + b, sn.curve)), tot)
    ctx.reach("sum")


def grow(ctx, k, slopes, end=False):
    """larger ranges or counts never give less damage"""
    from py_fatigue.damage.stress_life import calc_pm

    sn = sn_curve(ctx, k, slopes, "list", end)
    if sn.refused:
        return
    s, c = spectrum(ctx, 2)
    ctx.assume(s[0] <= s[1])
    d = list(calc_pm(ctx.array([s[0], s[1], s[0]]),
                     ctx.array([c[0], c[0], c[0] + c[1]]), sn.curve))
    ctx.le("positive", 0.0, d[0])
    if bool(d[0] > 0):
        ctx.le("range", ctx.log(d[0]), ctx.log(d[1]))
        ctx.le("count", ctx.log(d[0]), ctx.log(d[2]))
        ctx.reach("grow")
    else:
        ctx.eq("still", d[2], 0.0)


def scaled(ctx, k, slopes):
    """damage scales with the counts"""
    import numpy as np
    from py_fatigue.damage.stress_life import calc_pm

    sn = sn_curve(ctx, k, slopes)
    s, c = spectrum(ctx, 2)
    f = ctx.pos("f", 0.01, 100.0)
    a = list(calc_pm(ctx.array(s), ctx.array(c), sn.curve))
    b = list(calc_pm(ctx.array(s), ctx.array([f * x for x in c]), sn.curve))
    for x, y in zip(a, b):
        ctx.eq("scaled", ctx.log(y), ctx.log(x) + ctx.log(f))


def bad(ctx):
    from py_fatigue.damage.stress_life import calc_pm

    sn = sn_curve(ctx, 1, (3,))
    s, c = spectrum(ctx, 3)
    ctx.raises("lengths", ValueError, lambda: calc_pm(s, c[:2], sn.curve))
    ctx.raises("lengths", ValueError, lambda: calc_pm(s[:2], c, sn.curve))
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=(), **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    E, F = ("endless", "finite"), ("finite",)
    add("calc1", ratios, F, k=1, slopes=(3,), n=2)
    add("calc1e", ratios, E, k=1, slopes=(4.5,), n=2, end=True)
    add("calc2", ratios, F, k=2, slopes=(3, 5), n=2)
    add("calc2e", ratios, E, k=2, slopes=(3, 5), n=1, end=True)
    add("calc3", ratios, F, k=3, slopes=(3, 5, 7), n=1)
    add("list2", ratios, F, k=2, slopes=(3, 5), n=2, route="list")
    add("num1", ratios, F, k=1, slopes=(3,), n=1, route="number",
        form="number")
    add("num2", ratios, F, k=2, slopes=(3, 5), n=1, route="number")
    add("cc1", ratios, F, k=1, slopes=(3,), n=3, route="cc", counts=True)
    add("cc1e", ratios, E, k=1, slopes=(5,), n=2, route="cc", end=True)
    add("cc2", ratios, F, k=2, slopes=(3, 5), n=2, route="cc", counts=True)
    add("df1", ratios, F, k=1, slopes=(3,), n=2, route="df")
    add("df1e", ratios, E, k=1, slopes=(3,), n=2, route="df", end=True)
    add("df2", ratios, F, k=2, slopes=(3, 5), n=2, route="df", counts=True)
    add("dfi2", ratios, F, k=1, slopes=(3,), n=3, route="dfi", counts=True)
    add("sum1", total, ("sum",), n=2, m=2, k=1, slopes=(3,))
    add("sum1e", total, ("sum",), n=1, m=1, k=1, slopes=(3,), end=True)
    add("sum2", total, ("sum",), n=1, m=1, k=2, slopes=(3, 5))
    add("grow1", grow, ("grow",), k=1, slopes=(3,))
    add("grow1e", grow, ("grow",), k=1, slopes=(4.5,), end=True)
    add("grow2", grow, ("grow",), k=2, slopes=(3, 5))
    add("scaled1", scaled, k=1, slopes=(3,))
    add("scaled2", scaled, k=2, slopes=(3, 5))
    for r in ("calc", "cc", "df"):
        add("many_" + r, ratios, F, k=1, slopes=(3,), n=300, route=r)
    add("many_sum", total, ("sum",), n=300, m=1, k=1, slopes=(3,))
    add("bad", bad, ("done",))
    if big:
        add("calc1n6", ratios, F, k=1, slopes=(3,), n=6)
        add("calc2n4", ratios, F, k=2, slopes=(3, 5), n=4)
        add("calc3n2", ratios, F, k=3, slopes=(3, 5, 7), n=2)
        add("calc2e2", ratios, E, k=2, slopes=(3, 5), n=2, end=True)
        add("calc3e", ratios, E, k=3, slopes=(3, 5, 7), n=1, end=True)
        add("cc2n3", ratios, F, k=2, slopes=(4.5, 6), n=3, route="cc")
        add("df2e", ratios, E, k=2, slopes=(3, 5), n=2, route="df", end=True)
        add("sum1b", total, ("sum",), n=4, m=3, k=1, slopes=(3,))
        add("sum2b", total, ("sum",), n=2, m=2, k=2, slopes=(3, 5))
        add("sum2e", total, ("sum",), n=1, m=1, k=2, slopes=(3, 5), end=True)
        add("grow3", grow, ("grow",), k=3, slopes=(3, 5, 7))
        add("grow2e", grow, ("grow",), k=2, slopes=(3, 5), end=True)
    return also(cs, "calc1", "cc2", "df1e", "calc2e")
