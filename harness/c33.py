"""C33: checking given values against the knees of a curve."""
from engine.case import Case
from harness.c23 import paris, segment
from harness.curves import sn_curve

FUNCTIONS = ["material.SNCurve.get_knee_stress",
             "material.SNCurve.get_knee_cycles",
             "material.ParisCurve.get_knee_sif",
             "material.ParisCurve.get_knee_growth_rate"]
ASSUMPTIONS = ["slopes from a grid; intercepts arbitrary within the bounds, "
               "knees at least 0.01 decades apart",
               "a value agrees in d digits when it differs by a factor of at "
               "most exp(0.9/10^d) and disagrees when by at least "
               "exp(1.2/10^(d-1)); nothing is claimed in between"]


def verdict(ctx, dev, digits):
    """whether deviations (log ratios) of all values have to be accepted;
    None where nothing is claimed"""
    ok = True
    for d in dev:
        d = abs(d)
        if bool(d <= 0.9 * 10.0 ** -digits):
            continue
        ok = False
        if bool(d >= 1.2 * 10.0 ** (1 - digits)):
            return False
    return True if ok else None


def judge(ctx, dev, digits, call, own):
    v = verdict(ctx, dev, digits)
    ctx.assume(v is not None)
    if not v:
        ctx.raises("refused", AssertionError, call)
        ctx.reach("refused")
        return
    got = list(call())
    ctx.check("n", len(got) == len(own))
    for a, b in zip(got, own):
        ctx.eq("knee", ctx.log(a), ctx.log(b))
    ctx.reach("accepted")


def options(digits):
    return {} if digits == 2 else {"significant_digits": digits}


def shape(ctx, form, v):
    if form == "number":
        return v[0]
    return ctx.array(v) if form == "array" else list(v)


def sn(ctx, k, slopes, what, form, digits, free=None):
    """values near and far from the knees of an S-N curve"""
    o = sn_curve(ctx, k, slopes)
    ctx.assume(not o.refused)
    lk = [(o.aa[j] - o.aa[j + 1]) / (o.ms[j] - o.ms[j + 1])
          for j in range(k - 1)]
    for a, b in zip(lk, lk[1:]):
        ctx.assume(a - b >= 0.01)
    r = [ctx.pos("r%d" % j, 1e-3, 1e3) if free in (None, j) else 1.0
         for j in range(k - 1)]
    ks, kn = list(o.curve.get_knee_stress()), list(o.curve.get_knee_cycles())
    val = [x * y for x, y in zip(kn, r)]
    arg = shape(ctx, form, val)
    if what == "cycles":
        judge(ctx, [ctx.log(x) for x in r], digits,
              lambda: o.curve.get_knee_cycles(arg, **options(digits)), kn)
        return
    dev = []
    for j, x in enumerate(r):
        n = o.aa[j] - o.ms[j] * lk[j] + ctx.log10(x)
        s = None
        for m, a in zip(o.ms, o.aa):
            v = (a - n) / m
            if s is None or bool(v > s):
                s = v
        dev.append((s - lk[j]) * 2.302585092994046)
    judge(ctx, dev, digits,
          lambda: o.curve.get_knee_stress(arg, **options(digits)), ks)


def crack(ctx, k, slopes, what, form, digits, free=None):
    """values near and far from the knees of a Paris curve"""
    o = paris(ctx, k, slopes, th=False, cr=False)
    for g in o.gaps:
        ctx.assume(g >= 0.02)
    r = [ctx.pos("r%d" % j, 1e-2, 1e2) if free in (None, j) else 1.0
         for j in range(k - 1)]
    ks = list(o.curve.get_knee_sif())
    val = [x * y for x, y in zip(ks, r)]
    arg = shape(ctx, form, val)
    if what == "sif":
        judge(ctx, [ctx.log(x) for x in r], digits,
              lambda: o.curve.get_knee_sif(arg, **options(digits)), ks)
        return
    dev = []
    for j, x in enumerate(r):
        ls = o.lk[j] + ctx.log(x)
        i = segment(ctx, o, ls)
        dev.append(o.li[i] + o.ms[i] * ls - o.li[j] - o.ms[j] * o.lk[j])
    judge(ctx, dev, digits,
          lambda: o.curve.get_knee_growth_rate(arg, **options(digits)),
          list(o.curve.get_knee_growth_rate()))


def number(ctx, k, slopes, kind):
    """another number of values than there are knees"""
    if kind == "sn":
        o = sn_curve(ctx, k, slopes)
        ctx.assume(not o.refused)
        calls = [(o.curve.get_knee_stress, o.curve.get_knee_cycles),
                 (o.curve.get_knee_cycles, o.curve.get_knee_cycles)]
    else:
        o = paris(ctx, k, slopes, th=False, cr=False)
        calls = [(o.curve.get_knee_sif, o.curve.get_knee_sif),
                 (o.curve.get_knee_growth_rate, o.curve.get_knee_sif)]
    x = ctx.pos("x", 1.0, 1e8)
    for fn, own in calls:
        right = list(own())
        for n in range(0, k + 2):
            if n == k - 1 and k > 1:
                continue
            v = (right + [x] * n)[:n]
            ctx.raises("number:%d" % n, ValueError, fn, list(v))
            ctx.raises("number:%d" % n, ValueError, fn, ctx.array(v))
        if k != 2:
            ctx.raises("number:one", ValueError, fn, x)
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach, **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    both = ("accepted", "refused")
    for fn, kinds in ((sn, ("cycles", "stress")), (crack, ("sif", "rate"))):
        for what in kinds:
            pre = "sn_" if fn is sn else "paris_"
            two = (3.0, 5.0) if fn is sn else (5.0, 3.0)
            tri = (3.0, 5.0, 7.0) if fn is sn else (7.0, 5.0, 3.0)
            add(pre + what + "_number", fn, both, k=2, slopes=two, what=what,
                form="number", digits=2)
            add(pre + what + "_list3", fn, both, k=2, slopes=two, what=what,
                form="list", digits=3)
            for j in (0, 1):
                add(pre + what + "_knee%d" % j, fn, both, k=3, slopes=tri,
                    what=what, form="array", digits=1 + j, free=j)
            if big:
                add(pre + what + "_both", fn, both, k=3, slopes=tri,
                    what=what, form="list", digits=2)
                add(pre + what + "_d4", fn, both, k=2,
                    slopes=(4.5, 6.0) if fn is sn else (5.1, 2.88),
                    what=what, form="array", digits=4)
    for k, s in ((1, (3.0,)), (2, (3.0, 5.0)), (3, (3.0, 5.0, 7.0))):
        add("sn_number%d" % k, number, ["done"], k=k, slopes=s, kind="sn")
        add("paris_number%d" % k, number, ["done"], k=k,
            slopes=tuple(reversed(s)), kind="paris")
    return cs
