"""C23: Paris curves."""
import types

from engine.case import Case
from harness.curves import give
from harness.warm import also

FUNCTIONS = ["material.ParisCurve.get_growth_rate",
             "material.ParisCurve.get_sif",
             "material.ParisCurve.get_knee_sif",
             "material.ParisCurve.get_knee_growth_rate",
             "material.ParisCurve.threshold_growth_rate",
             "material.ParisCurve.critical_growth_rate",
             "material.crack_growth_curve._calc_growth_rate",
             "material.crack_growth_curve._calc_sif",
             "material.sn_curve._check_param_couple_types",
             "material.sn_curve.ensure_array"]
ASSUMPTIONS = ["slopes from a grid; intercepts, threshold, critical value and "
               "SIFs arbitrary within the bounds",
               "SIFs and rates not within 1e-6 (log) of threshold and "
               "critical value; knees at least 1e-6 (log) apart"]
EPS = 1e-6


def paris(ctx, k, slopes, th=True, cr=True, form="list", order=True):
    """a Paris curve with symbolic intercepts, threshold and critical"""
    from py_fatigue.material import ParisCurve

    o = types.SimpleNamespace(ms=[float(m) for m in slopes])
    o.ii = [ctx.pos("i%d" % j, 1e-18, 1e-4) for j in range(k)]
    o.th = ctx.pos("th", 1.0, 100.0) if th else 0
    o.cr = ctx.pos("cr", 50.0, 1e5) if cr else float("inf")
    o.lth = ctx.log(o.th) if th else None
    o.lcr = ctx.log(o.cr) if cr else None
    o.li = [ctx.log(x) for x in o.ii]
    o.lk = [(o.li[j] - o.li[j + 1]) / (o.ms[j + 1] - o.ms[j])
            for j in range(k - 1)]
    pts = [x for x in [o.lth] + o.lk + [o.lcr] if x is not None]
    o.gaps = [b - a for a, b in zip(pts, pts[1:])]
    if order:
        for g in o.gaps:
            ctx.assume(g >= EPS)
    o.curve = ParisCurve(slope=give(ctx, form, o.ms),
                         intercept=give(ctx, form, o.ii),
                         threshold=o.th, critical=o.cr)
    return o


def segment(ctx, o, ls):
    j = 0
    while j < len(o.lk) and bool(ls > o.lk[j]):
        j += 1
    ctx.reach("segment%d" % j)
    return j


def sifs(ctx, n, lo=0.1, hi=1e6):
    return [ctx.pos("s%d" % j, lo, hi) if n < 20 or j == n - 1 else
            0.5 + 0.75 * (17 * j % 211) for j in range(n)]


def off(ctx, o, ls):
    """away from threshold and critical value"""
    for x in (o.lth, o.lcr):
        if x is not None:
            ctx.assume(abs(ls - x) >= EPS)


def rate(ctx, k, slopes, n=1, th=True, cr=True, form="list", arg="array"):
    o = paris(ctx, k, slopes, th, cr, form)
    s = sifs(ctx, n)
    for x in s:
        off(ctx, o, ctx.log(x))
    if arg == "number":
        r = [o.curve.get_growth_rate(s[0])]
    else:
        r = o.curve.get_growth_rate(give(ctx, arg, s))
    ctx.check("len", len(r) == n)
    for x, y in zip(s, r):
        ls = ctx.log(x)
        if o.lth is not None and bool(ls < o.lth):
            ctx.eq("below", y, 0.0)
            ctx.reach("below")
        elif o.lcr is not None and bool(ls > o.lcr):
            ctx.check("above", ctx.infinite(y))
            ctx.reach("above")
        else:
            j = segment(ctx, o, ls)
            ctx.check("finite", not ctx.infinite(y))
            ctx.eq("rate", ctx.log(y), o.li[j] + o.ms[j] * ls)


def zero(ctx, k, slopes, th, cr):
    o = paris(ctx, k, slopes, th, cr)
    ctx.eq("none", o.curve.get_growth_rate(0.0), 0.0)
    ctx.raises("negative", AssertionError,
               lambda: o.curve.get_growth_rate(-1.0))
    ctx.raises("negative", AssertionError,
               lambda: o.curve.get_growth_rate([5.0, -1.0]))
    ctx.raises("negative rate", AssertionError,
               lambda: o.curve.get_sif(-1e-9))
    ctx.reach("done")


def inverse(ctx, k, slopes, th=True, cr=True, arg="array", back=False):
    """the SIF of a growth rate"""
    o = paris(ctx, k, slopes, th, cr)
    if back:
        s = sifs(ctx, 1)[0]
        ls = ctx.log(s)
        off(ctx, o, ls)
        if o.lth is not None:
            ctx.assume(ls > o.lth)
        if o.lcr is not None:
            ctx.assume(ls < o.lcr)
        j = segment(ctx, o, ls)
        g = o.curve.get_growth_rate(s)
        ctx.eq("round trip", ctx.log(o.curve.get_sif(g)), ls)
        return
    g = ctx.pos("g", 1e-20, 1e10)
    lg = ctx.log(g)
    ends = []
    if o.lth is not None:
        ends.append(o.li[0] + o.ms[0] * o.lth)
    if o.lcr is not None:
        ends.append(o.li[-1] + o.ms[-1] * o.lcr)
    for x in ends:
        ctx.assume(abs(lg - x) >= 1e-5)
    s = (o.curve.get_sif(g) if arg == "number"
         else o.curve.get_sif(give(ctx, arg, [g]))[0])
    if o.lth is not None and bool(lg < ends[0]):
        ctx.eq("below", ctx.log(s), o.lth)
        ctx.reach("below")
        return
    if o.lcr is not None and bool(lg > ends[-1]):
        ctx.eq("above", ctx.log(s), o.lcr)
        ctx.reach("above")
        return
    j = 0
    while j < k - 1 and bool(lg > o.li[j] + o.ms[j] * o.lk[j]):
        j += 1
    ctx.reach("segment%d" % j)
    ctx.eq("sif", ctx.log(s), (lg - o.li[j]) / o.ms[j])


def monotone(ctx, k, slopes, th=True, cr=True):
    o = paris(ctx, k, slopes, th, cr)
    s = sifs(ctx, 2)
    l = [ctx.log(x) for x in s]
    for x in l:
        off(ctx, o, x)
    ctx.assume(l[0] <= l[1])
    r = o.curve.get_growth_rate(ctx.array(s))
    if ctx.infinite(r[1]):
        ctx.reach("infinite")
        return
    ctx.check("finite", not ctx.infinite(r[0]))
    if o.lth is not None and bool(l[0] < o.lth):
        ctx.eq("below", r[0], 0.0)
        ctx.reach("below")
        return
    ctx.le("rate", ctx.log(r[0]), ctx.log(r[1]))
    ctx.reach("done")


def knees(ctx, k, slopes, th=True, cr=True):
    o = paris(ctx, k, slopes, th, cr)
    ks = o.curve.get_knee_sif()
    kr = o.curve.get_knee_growth_rate()
    ctx.check("n", len(ks) == k - 1 and len(kr) == k - 1)
    for j in range(k - 1):
        lk, lr = ctx.log(ks[j]), ctx.log(kr[j])
        ctx.eq("left", lr, o.li[j] + o.ms[j] * lk)
        ctx.eq("right", lr, o.li[j + 1] + o.ms[j + 1] * lk)
    if th:
        ctx.eq("threshold", ctx.log(o.curve.threshold_growth_rate),
               o.li[0] + o.ms[0] * o.lth)
    if cr:
        ctx.eq("critical", ctx.log(o.curve.critical_growth_rate),
               o.li[-1] + o.ms[-1] * o.lcr)
    ctx.reach("done")


def order(ctx, k, slopes, th=True, cr=True):
    """curves with knees out of order are refused when evaluated"""
    o = paris(ctx, k, slopes, th, cr, order=False)
    for g in o.gaps:
        ctx.assume(abs(g) >= 1e-4)
    s = sifs(ctx, 1)[0]
    if all([bool(g > 0) for g in o.gaps]):
        o.curve.get_growth_rate(s)
        ctx.reach("accepted")
        return
    ctx.raises("rate", AssertionError, lambda: o.curve.get_growth_rate(s))
    ctx.reach("refused")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach, **p):
        cs.append(Case(name, fn, must_reach=reach, bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    grid = [("m3", 1, (3,)), ("m8_3", 2, (8.16, 2.88)), ("m2_5", 2, (2, 5)),
            ("m5_3_4", 3, (5, 3, 4))]
    if big:
        grid += [("m2h", 1, (2.5,)), ("m4_3_2", 3, (4, 3, 2)),
                 ("m3_2", 2, (3, 2)), ("m5_4_3_2", 4, (5, 4, 3, 2))]
    ends = [(True, True), (True, False), (False, True), (False, False)]
    for nm, k, sl in grid:
        seg = ["segment%d" % j for j in range(k)]
        for th, cr in ends:
            e = nm + ("_t" if th else "") + ("_c" if cr else "")
            lim = (["below"] if th else []) + (["above"] if cr else [])
            add("rate_" + e, rate, seg + lim, k=k, slopes=sl, th=th, cr=cr)
            add("sif_" + e, inverse, seg + lim, k=k, slopes=sl, th=th, cr=cr)
            add("back_" + e, inverse, seg, k=k, slopes=sl, th=th, cr=cr,
                back=True)
            add("knees_" + e, knees, ["done"], k=k, slopes=sl, th=th, cr=cr)
            if k < 3 or big:
                add("mono_" + e, monotone, ["done"] + (
                    ["infinite"] if cr else []), k=k, slopes=sl, th=th,
                    cr=cr)
            if k > 1 and (th or cr or k > 2):
                add("order_" + e, order, ["accepted", "refused"], k=k,
                    slopes=sl, th=th, cr=cr)
            if k < 3:
                add("zero_" + e, zero, ["done"], k=k, slopes=sl, th=th,
                    cr=cr)
        if k < 3:
            add("two_" + nm, rate, seg, k=k, slopes=sl, n=2)
    add("number", rate, ["segment0"], k=1, slopes=(3,), form="number",
        arg="number")
    add("list", rate, ["segment0"], k=2, slopes=(5, 3), form="array",
        arg="list", n=1)
    add("sif_number", inverse, ["segment0"], k=2, slopes=(5, 3),
        arg="number")
    add("sif_list", inverse, ["segment0"], k=2, slopes=(5, 3), arg="list")
    add("many", rate, ["segment0"], k=1, slopes=(3,), th=False, cr=False,
        n=300)
    add("many_list", rate, ["segment0"], k=1, slopes=(3.5,), th=False,
        cr=False, n=300, arg="list")
    return also(cs, "rate_m8_3_t_c", "sif_m3_t_c", "knees_m8_3")
