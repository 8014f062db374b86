"""C14: number of cycles of an S-N curve."""
from engine.case import Case
from harness.curves import SLOPES, sn_curve
from harness.warm import also

FUNCTIONS = ["material.SNCurve.__init__", "material.SNCurve.get_cycles",
             "material.SNCurve.get_knee_stress",
             "material.SNCurve.get_knee_cycles",
             "material.SNCurve.endurance_stress",
             "material.sn_curve._calc_cycles",
             "material.sn_curve._check_param_couple_types",
             "material.sn_curve.ensure_array"]
ASSUMPTIONS = ["slopes from a grid of positive numbers; intercepts, stresses "
               "and endurance arbitrary within the bounds",
               "cycles are compared in logarithms (1e-6)",
               "endurance stress: curves whose slopes increase from segment "
               "to segment"]


def life(ctx, sn, s):
    """log10 life at stress s of an ideal curve (no endurance)"""
    ls = ctx.log10(s)
    best = None
    for m, a in zip(sn.ms, sn.aa):
        v = a - m * ls
        if best is None or bool(v > best):
            best = v
    return best


def cycles(ctx, k, slopes, form="list", end=False, n=2, how="array"):
    sn = sn_curve(ctx, k, slopes, form, end)
    if sn.refused:
        ctx.reach("refused")
        return
    s = [ctx.pos("s%d" % i, 1e-2, 1e4) if n < 20 or i == n - 1 else
         0.5 + 0.75 * (17 * i % 211) for i in range(n)]
    if how == "scalar":
        got = [sn.curve.get_cycles(x) for x in s]
    elif how == "list":
        got = list(sn.curve.get_cycles(list(s)))
    else:
        got = list(sn.curve.get_cycles(ctx.array(s)))
    ctx.check("len", len(got) == n)
    for x, g in zip(s, got):
        L = life(ctx, sn, x)
        if end:
            LE = ctx.log10(sn.end)
            ctx.assume(abs(L - LE) >= 1e-4)
            if bool(L > LE):
                ctx.check("endless", ctx.infinite(g))
                ctx.reach("endless")
                continue
        ctx.check("finite", not ctx.infinite(g))
        ctx.eq("life", ctx.log10(g), L)
        ctx.reach("life")
    # the same values one by one
    if how != "scalar":
        for x, g in zip(s, got):
            h = sn.curve.get_cycles(x)
            ctx.check("one:inf", ctx.infinite(h) == ctx.infinite(g))
            if not ctx.infinite(g):
                ctx.eq("one", ctx.log10(h), ctx.log10(g))


def knees(ctx, k, slopes, form="list", end=False):
    sn = sn_curve(ctx, k, slopes, form, end)
    if sn.refused:
        return
    ks = list(sn.curve.get_knee_stress())
    kn = list(sn.curve.get_knee_cycles())
    ctx.check("n", len(ks) == len(kn) == k - 1)
    for j in range(k - 1):
        for i in (j, j + 1):
            ctx.eq("on segment", ctx.log10(kn[j]),
                   sn.aa[i] - sn.ms[i] * ctx.log10(ks[j]))
    ctx.check("linear", sn.curve.linear == (k == 1))
    ctx.eq_list("slope", list(sn.curve.slope), sn.ms)
    ctx.eq_list("intercept", list(sn.curve.intercept), sn.aa)


def refused(ctx, k, slopes):
    """a finite endurance below a knee is refused, otherwise accepted"""
    sn = sn_curve(ctx, k, slopes, "list", True)
    worst = None
    for j in range(k - 1):
        (m, n), (a, b) = sn.ms[j:j + 2], sn.aa[j:j + 2]
        v = a - m * (a - b) / (m - n)
        if worst is None or bool(v > worst):
            worst = v
    LE = ctx.log10(sn.end)
    ctx.assume(abs(worst - LE) >= 1e-4)
    ctx.check("refused", sn.refused == bool(worst > LE))
    ctx.reach("refused" if sn.refused else "accepted")


def endurance(ctx, k, slopes, form="list"):
    """the endurance stress separates finite and infinite life"""
    sn = sn_curve(ctx, k, slopes, form, True)
    if sn.refused:
        return
    es = sn.curve.endurance_stress
    LE = ctx.log10(sn.end)
    ctx.eq("last", ctx.log10(es), (sn.aa[-1] - LE) / sn.ms[-1])
    ctx.eq("at", ctx.log10(sn.curve.get_stress(sn.end)), ctx.log10(es))
    s = ctx.pos("s", 1e-2, 1e4)
    ctx.assume(abs(ctx.log10(s) - ctx.log10(es)) >= 1e-4)
    g = sn.curve.get_cycles(s)
    ctx.check("limit", ctx.infinite(g) == bool(s < es))
    ctx.reach("endless" if ctx.infinite(g) else "finite")


def bad(ctx, k, slopes):
    from py_fatigue.material import SNCurve

    sn = sn_curve(ctx, k, slopes)
    s = ctx.pos("s", 1e-2, 1e4)
    neg = ctx.real("neg", lo=-1e3, hi=-1e-3)
    ctx.raises("negative", AssertionError, lambda: sn.curve.get_cycles(neg))
    for v in ([s, neg], [neg, s]):
        ctx.raises("negative", AssertionError,
                   lambda: sn.curve.get_cycles(v))
    ctx.raises("lengths", ValueError,
               lambda: SNCurve(sn.ms, sn.aa + [10.0]))
    ctx.check("zero", ctx.infinite(sn.curve.get_cycles(0.0)))
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=(), **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    for nm, k, sl in SLOPES if big else SLOPES[:6]:
        add("cyc_" + nm, cycles, ("life",), k=k, slopes=sl, n=1)
        add("end_" + nm, cycles, ("life", "endless"), k=k, slopes=sl,
            end=True, n=1)
        add("knee_" + nm, knees, k=k, slopes=sl)
        if list(sl) == sorted(sl):
            add("lim_" + nm, endurance, ("finite", "endless"), k=k,
                slopes=sl)
        if k > 1:
            add("ref_" + nm, refused, ("refused", "accepted"), k=k,
                slopes=sl)
    for form in ("number", "array", "np"):
        k = 1 if form == "number" else 2
        sl = (3,) if k == 1 else (3, 5)
        add("form_" + form, cycles, ("life",), k=k, slopes=sl, form=form)
        add("kform_" + form, knees, k=k, slopes=sl, form=form)
    for how in ("scalar", "list"):
        add("how_" + how, cycles, ("life", "endless"), k=2, slopes=(3, 5),
            how=how, end=True)
    add("n3", cycles, ("life", "endless"), k=2, slopes=(3, 5), end=True,
        n=4 if big else 3)
    add("n3k3", cycles, ("life",), k=3, slopes=(3, 5, 7), n=3 if big else 2)
    add("many", cycles, ("life",), k=1, slopes=(3,), n=300)
    add("many2", cycles, ("life",), k=1, slopes=(4.5,), n=300, how="list")
    add("bad1", bad, ("done",), k=1, slopes=(3,))
    add("bad2", bad, ("done",), k=2, slopes=(3, 5))
    return also(cs, "cyc_m3_5", "end_m3", "end_m3_5", "knee_m3_5", "lim_m3_5")
