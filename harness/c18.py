"""C18: nonlinear damage accumulation rules."""
from engine.case import Case
from harness.c16 import LN10
from harness.counts import stamp
from harness.curves import sn_curve
from harness.warm import also

FUNCTIONS = ["damage.stress_life.calc_nonlinear_damage",
             "damage.stress_life.get_nonlinear_damage",
             "damage.stress_life.calc_manson_halford_exponents",
             "damage.stress_life.calc_pavlou_exponents",
             "damage.stress_life.calc_si_jian_exponents",
             "damage.stress_life.calc_pm", "material.SNCurve.get_cycles"]
ASSUMPTIONS = ["slopes and base exponents from a grid; intercepts, ranges "
               "and counts arbitrary within the bounds",
               "ranges not within 1e-6 (log) of a knee, decided in C14",
               "powers with symbolic exponents are compared as terms "
               "exp(e log x)"]
RULES = ["pavlou", "manson", "manson and halford", "manson halford", "leve",
         "si jian", "si jian et al"]


def setup(ctx, k, slopes, n, equal=False, end=False):
    sn = sn_curve(ctx, k, slopes, "list", end, alo=10.0, ahi=16.0)
    if sn.refused:
        return sn, None, None, None
    s = [ctx.pos("s%d" % i, 20.0, 500.0) for i in range(n)]
    if equal:
        s = [s[0]] * n
    c = [ctx.pos("c%d" % i, 0.5, 1e4) for i in range(n)]
    L = []
    for x in s:
        ls, best = ctx.log(x), None
        for m, a in zip(sn.ms, sn.aa):
            v = a * LN10 - m * ls
            if best is not None:
                ctx.assume(abs(v - best) >= 1e-6)
            if best is None or bool(v > best):
                best = v
        L.append(best)
    return sn, s, c, L


def call(ctx, route, rule, s, c, sn, **kw):
    import numpy as np
    from py_fatigue.cycle_count import CycleCount
    from py_fatigue.damage import stress_life as sl

    if route == "calc":
        return sl.calc_nonlinear_damage(rule, ctx.array(s), ctx.array(c),
                                        sn.curve, **kw)
    cc = CycleCount(count_cycle=ctx.array(c), stress_range=ctx.array(s),
                    mean_stress=np.zeros(len(s)), timestamp=stamp(0))
    return sl.get_nonlinear_damage(rule, cc, sn.curve, **kw)


def rule(ctx, rule, n, k=1, slopes=(3,), route="calc", base=None, su=None):
    """the recurrence D = (D + n/N) ** e in the order of the cycles"""
    sn, s, c, L = setup(ctx, k, slopes, n)
    kw = {}
    if base is not None:
        kw["base_exponent"] = base
    if su == "sym":
        kw["ultimate_stress"] = ctx.pos("su", 100.0, 2000.0)
    D = call(ctx, route, rule, s, c, sn, **kw)
    tot = 0.0
    for i in range(n):
        last = i == n - 1
        if rule == "pavlou":
            b = -0.75 if base is None else base
            e = 1.0 if last else (s[i + 1] / s[i]) ** b
        elif "manson" in rule:
            b = 0.4 if base is None else base
            e = 1.0 if last else ctx.exp(b * (L[i] - L[i + 1]))
        elif rule == "leve":
            e = 2 if base is None else base
        else:
            e = 1.0 if last else s[i + 1] / s[i]
        tot = (tot + c[i] * ctx.exp(-L[i])) ** e
    ctx.eq("damage", ctx.log(D), ctx.log(tot))
    ctx.reach("done")


def linear(ctx, rule, n, k=1, slopes=(3,), route="calc", base=None):
    """unit exponents: the Miner sum"""
    sn, s, c, L = setup(ctx, k, slopes, n, equal=rule != "leve")
    kw = {} if base is None else {"base_exponent": base}
    D = call(ctx, route, rule, s, c, sn, **kw)
    tot = 0.0
    for i in range(n):
        tot = tot + c[i] * ctx.exp(-L[i])
    ctx.eq("sum", ctx.log(D), ctx.log(tot))
    ctx.reach("done")


def endless(ctx, rule, n, k=1, slopes=(3,), route="calc"):
    """cycles below the endurance stress add nothing; a history of nothing
    else has no damage under any rule"""
    sn, s, c, L = setup(ctx, k, slopes, n, end=True)
    if sn.refused:
        return
    E = ctx.log(sn.end)
    out = []
    for v in L:
        ctx.assume(abs(v - E) >= 1e-6)
        out.append(bool(v > E))
    D = call(ctx, route, rule, s, c, sn)
    tot = 0.0
    if "manson" in rule:  # no ratios with infinite lives
        keep = [i for i in range(n) if not out[i]]
        s, c, L = [[v[i] for i in keep] for v in (s, c, L)]
        n = len(keep)
        out = [False] * n
    for i in range(n):
        last = i == n - 1
        if rule == "pavlou":
            e = 1.0 if last else (s[i + 1] / s[i]) ** -0.75
        elif "manson" in rule:
            e = 1.0 if last else ctx.exp(0.4 * (L[i] - L[i + 1]))
        elif rule == "leve":
            e = 2
        else:
            e = 1.0 if last else s[i + 1] / s[i]
        d = 0.0 if out[i] else c[i] * ctx.exp(-L[i])
        if not all(out[:i + 1]):
            tot = (tot + d) ** e
    if all(out):
        ctx.eq("no damage", D, 0.0)
        ctx.reach("none")
        return
    ctx.eq("damage", ctx.log(D), ctx.log(tot))
    ctx.reach("done")


def bad(ctx, n):
    sn, s, c, L = setup(ctx, 1, (3,), n)
    for r in ("miner", "", "palmgren", "man", "xleve", "sijian", "linear"):
        for route in ("calc", "cc"):
            ctx.raises("unknown:" + r, ValueError,
                       lambda: call(ctx, route, r, s, c, sn))
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, **p):
        reach = ["done", "none"] if fn is endless else ["done"]
        cs.append(Case(name, fn, must_reach=reach, bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    for r in RULES:
        nm = r.replace(" ", "_")
        add(nm + "_2", rule, rule=r, n=2)
        if r in ("manson", "manson halford", "si jian et al") and not big:
            continue  # another name of a rule
        add(nm + "_3", rule, rule=r, n=3)
        add(nm + "_cc", rule, rule=r, n=3, route="cc")
        add(nm + "_1", rule, rule=r, n=1)
        add(nm + "_end", endless, rule=r, n=3)
        add(nm + "_end_cc", endless, rule=r, n=2, k=2, slopes=(3, 5),
            route="cc")
        add(nm + "_k2", rule, rule=r, n=2, k=2, slopes=(3, 5))
        if r == "leve":
            add(nm + "_b3", rule, rule=r, n=2, base=3)
            add(nm + "_bh", rule, rule=r, n=2, base=0.5)
            add(nm + "_b0", rule, rule=r, n=2, base=0)
            add(nm + "_lin", linear, rule=r, n=3, base=1)
        else:
            add(nm + "_lin", linear, rule=r, n=3)
            if r == "pavlou":
                add(nm + "_b", rule, rule=r, n=3, base=-0.5, su="sym")
                add(nm + "_b0", rule, rule=r, n=3, base=0)
            elif "manson" in r:
                add(nm + "_b0", rule, rule=r, n=3, base=0.0)
                add(nm + "_b", rule, rule=r, n=3, base=0.3)
        if big:
            add(nm + "_4", rule, rule=r, n=5)
            add(nm + "_cc3", rule, rule=r, n=3, k=2, slopes=(4.5, 6),
                route="cc")
            add(nm + "_k3", rule, rule=r, n=2, k=3, slopes=(3, 5, 7))
    add("bad", bad, n=2)
    return also(cs, "leve_2", "pavlou_cc", "manson_2")
