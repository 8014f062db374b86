"""C15: stress and cycles of an S-N curve are inverse and decreasing."""
from engine.case import Case
from harness.curves import SLOPES, sn_curve
from harness.warm import also

FUNCTIONS = ["material.SNCurve.__init__", "material.SNCurve.get_cycles",
             "material.SNCurve.get_stress",
             "material.SNCurve.get_knee_stress",
             "material.SNCurve.get_knee_cycles",
             "material.sn_curve._calc_cycles",
             "material.sn_curve._calc_stress",
             "material.sn_curve.ensure_array"]
ASSUMPTIONS = ["slopes from a grid of positive numbers; intercepts, "
               "stresses, cycles and endurance arbitrary within the bounds",
               "values are compared in logarithms (1e-6)",
               "with a finite endurance: curves whose slopes increase from "
               "segment to segment"]


def stress_back(ctx, k, slopes, end=False, how="array", form="list"):
    """stress -> cycles -> stress"""
    sn = sn_curve(ctx, k, slopes, form, end)
    if sn.refused:
        return
    s = ctx.pos("s", 1e-2, 1e4)
    if how == "scalar":
        n = sn.curve.get_cycles(s)
    else:
        n = sn.curve.get_cycles(ctx.array([s]))[0]
    if ctx.infinite(n):
        b = sn.curve.get_stress(n) if how == "scalar" else \
            sn.curve.get_stress([n])[0]
        es = sn.curve.endurance_stress
        ctx.eq("floor", ctx.log10(b), ctx.log10(es))
        ctx.le("below", ctx.log10(s), ctx.log10(es))
        ctx.reach("endless")
        return
    b = sn.curve.get_stress(n) if how == "scalar" else \
        sn.curve.get_stress(ctx.array([n]))[0]
    ctx.eq("back", ctx.log10(b), ctx.log10(s))
    ctx.reach("back")


def cycles_back(ctx, k, slopes, end=False, how="array", form="list"):
    """cycles -> stress -> cycles"""
    sn = sn_curve(ctx, k, slopes, form, end)
    if sn.refused:
        return
    n = ctx.pos("n", 1.0, 1e13)
    if end:
        ctx.assume(abs(ctx.log10(n) - ctx.log10(sn.end)) >= 1e-4)
    if how == "scalar":
        s = sn.curve.get_stress(n)
    else:
        s = sn.curve.get_stress(ctx.array([n]))[0]
    if end and bool(n > sn.end):
        ctx.eq("floor", ctx.log10(s), ctx.log10(sn.curve.endurance_stress))
        ctx.reach("endless")
        return
    b = sn.curve.get_cycles(s)
    ctx.check("finite", not ctx.infinite(b))
    ctx.eq("back", ctx.log10(b), ctx.log10(n))
    ctx.reach("back")


def monotone(ctx, k, slopes, end=False, what="cycles", how="array",
             form="list"):
    """two stresses or two lives in order"""
    sn = sn_curve(ctx, k, slopes, form, end)
    if sn.refused:
        return
    lo, hi = (1e-2, 1e4) if what == "cycles" else (1.0, 1e13)
    x = [ctx.pos("x%d" % i, lo, hi) for i in range(2)]
    ctx.assume(x[0] <= x[1])
    f = sn.curve.get_cycles if what == "cycles" else sn.curve.get_stress
    y = [f(v) for v in x] if how == "scalar" else list(f(ctx.array(x)))
    if ctx.infinite(y[0]):
        ctx.reach("endless")
        return
    ctx.check("finite", not ctx.infinite(y[1]))
    ctx.le("decreasing", ctx.log10(y[1]), ctx.log10(y[0]))
    # strictly below the endurance
    if not end:
        gap = ctx.log10(x[1]) - ctx.log10(x[0])
        m = max(sn.ms)
        lo = gap / m if what == "stress" else gap * min(sn.ms)
        hi = gap / min(sn.ms) if what == "stress" else gap * m
        d = ctx.log10(y[0]) - ctx.log10(y[1])
        ctx.le("least", lo, d)
        ctx.le("most", d, hi)
    ctx.reach("pair")


def knee(ctx, k, slopes):
    """both directions at the knees (when they are on the curve)"""
    sn = sn_curve(ctx, k, slopes)
    ks = sn.curve.get_knee_stress()
    kn = sn.curve.get_knee_cycles()
    if k > 2:
        for j in range(k - 2):
            ctx.assume(ks[j] >= ks[j + 1])
    for a, b in zip(ks, kn):
        ctx.eq("stress", ctx.log10(sn.curve.get_stress(b)), ctx.log10(a))
        ctx.eq("cycles", ctx.log10(sn.curve.get_cycles(a)), ctx.log10(b))
    ctx.reach("knees")


def old(ctx, k, slopes):
    """the old names give the same values"""
    sn = sn_curve(ctx, k, slopes)
    s = ctx.pos("s", 1e-2, 1e4)
    n = ctx.pos("n", 1.0, 1e13)
    ctx.eq("n", ctx.log10(sn.curve.n(s)), ctx.log10(sn.curve.get_cycles(s)))
    ctx.eq("sigma", ctx.log10(sn.curve.sigma(n)),
           ctx.log10(sn.curve.get_stress(n)))


def bad(ctx, k, slopes):
    sn = sn_curve(ctx, k, slopes)
    n = ctx.pos("n", 1.0, 1e13)
    neg = ctx.real("neg", lo=-1e3, hi=0)
    ctx.raises("negative", AssertionError, lambda: sn.curve.get_stress(neg))
    for v in ([n, neg], [neg, n]):
        ctx.raises("negative", AssertionError,
                   lambda: sn.curve.get_stress(v))
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=(), **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    for nm, k, sl in SLOPES if big else SLOPES[:6]:
        up = list(sl) == sorted(sl)
        add("sns_" + nm, stress_back, ("back",), k=k, slopes=sl)
        add("nsn_" + nm, cycles_back, ("back",), k=k, slopes=sl)
        if up:
            add("snse_" + nm, stress_back, ("back", "endless"), k=k,
                slopes=sl, end=True)
            add("nsne_" + nm, cycles_back, ("back", "endless"), k=k,
                slopes=sl, end=True)
        for w in ("cycles", "stress"):
            if k < 3 or big:
                add("mono_%s_%s" % (w, nm), monotone, ("pair",), k=k,
                    slopes=sl, what=w)
            if up and (k < 3 or big):
                add("monoe_%s_%s" % (w, nm), monotone,
                    ("pair",) + (("endless",) if w == "cycles" else ()), k=k,
                    slopes=sl, what=w, end=True)
        if k > 1 and up:
            add("knee_" + nm, knee, ("knees",), k=k, slopes=sl)
    add("mono3", monotone, ("pair",), k=3, slopes=(3, 5, 7), what="cycles")
    add("mono3s", monotone, ("pair",), k=3, slopes=(3, 5, 7), what="stress")
    add("one_s", stress_back, ("back",), k=2, slopes=(3, 5), how="scalar")
    add("one_n", cycles_back, ("back",), k=2, slopes=(3, 5), how="scalar")
    add("num_s", stress_back, ("back",), k=1, slopes=(3,), form="number")
    add("arr_n", cycles_back, ("back",), k=2, slopes=(3, 5), form="array")
    add("old1", old, k=1, slopes=(3,))
    add("old2", old, k=2, slopes=(3, 5))
    add("bad1", bad, ("done",), k=1, slopes=(3,))
    add("bad2", bad, ("done",), k=2, slopes=(3, 5))
    return also(cs, "sns_m3", "snse_m3_5", "nsne_m3_5", "knee_m3_5")
