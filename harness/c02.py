"""C02: turning points and level crossings."""
from engine.case import Case
from harness.signals import long, raw
from harness.warm import also

FUNCTIONS = ["rainflow.findtp", "rainflow.findextrema", "rainflow.findcross",
             "rainflow.findcross_indices", "rainflow._findcross"]
ASSUMPTIONS = ["a leading plateau (or leading samples on the level) counts as "
               "an extremum (crossing) at its end, as in the documented "
               "example"]


def sgn(v):
    return 1 if bool(v > 0) else (-1 if bool(v < 0) else 0)


def ref_cross(s):
    """indices after which the side changes, for a list of signs"""
    out = []
    last = s[0] if s else 0
    for i in range(len(s) - 1):
        if s[i + 1] != 0 and s[i + 1] != last:
            out.append(i)
            last = s[i + 1]
    return out


def cross(ctx, n, kind="array", level=True):
    import py_fatigue.cycle_count.rainflow as rf

    x = raw(ctx, n)
    v = ctx.real("v", lo=-1000, hi=1000) if level else 0.0
    arr = list(x) if kind == "list" else ctx.array(x)
    exp = ref_cross([sgn(a - v) for a in x])
    if kind == "list" or level:
        got = [int(i) for i in rf.findcross(arr, v)]
    else:
        got = [int(i) for i in rf.findcross(arr)]
    ctx.check("crossings", got == exp)
    up = [int(i) for i in rf.findcross(arr, v, "u")]
    down = [int(i) for i in rf.findcross(arr, v, "d")]
    ctx.check("up", up == [i for i in exp if bool(x[i + 1] > v)])
    ctx.check("down", down == [i for i in exp if bool(x[i + 1] < v)])
    for kd in ("du", "all", None):
        ctx.check("kind", [int(i) for i in rf.findcross(arr, v, kd)] == exp)
    if exp:
        ctx.raises("unknown kind", ValueError, rf.findcross, arr, v, "x")
        ctx.reach("crossing")
    if len(exp) > 1:
        ctx.reach("two")


def extrema(ctx, n):
    import py_fatigue.cycle_count.rainflow as rf

    x = raw(ctx, n)
    arr = ctx.array(x)
    ext = [int(i) for i in rf.findextrema(arr)]
    d = [sgn(b - a) for a, b in zip(x[:-1], x[1:])]
    exp = [i + 1 for i in ref_cross(d)]
    # any sample of the plateau may stand for it
    ctx.check("extrema:n", len(ext) == len(exp))
    for a, b in zip(ext, exp):
        lo, hi = min(a, b), max(a, b)
        ctx.check("extrema", 0 <= lo and hi <= n - 1 and all(
            k == 0 for k in d[lo:hi]))
    tp = [int(i) for i in rf.findtp(arr)]
    ctx.check("tp:ends", tp[0] == 0 and tp[-1] == n - 1)
    ctx.check("tp:inner", tp[1:-1] == ext)
    ctx.check("tp:increasing", all(a < b for a, b in zip(ext[:-1], ext[1:])))
    # the signal is monotone between consecutive turning points
    for a, b in zip(tp[:-1], tp[1:]):
        dirs = {k for k in d[a:b] if k}
        ctx.check("tp:monotone", len(dirs) <= 1)
    # and alternates at inner turning points (leading plateau aside)
    inner = [i for i in ext if any(d[:i])]
    for i in inner:
        pre = [k for k in d[:i] if k][-1]
        post = [k for k in d[i:] if k]
        ctx.check("tp:turn", bool(post) and post[0] == -pre)
    if inner:
        ctx.reach("inner")


def lengthy(ctx, n, free):
    """long signals: mostly given samples"""
    import py_fatigue.cycle_count.rainflow as rf

    x = long(ctx, n, free=free, dev=40.0)
    v = ctx.real("v", lo=-2, hi=2) if n < 1000 else 0.25
    arr = ctx.array(x)
    d = [sgn(b - a) for a, b in zip(x[:-1], x[1:])]
    exp = [i + 1 for i in ref_cross(d)]
    ctx.check("extrema", [int(i) for i in rf.findextrema(arr)] == exp)
    ctx.check("tp", [int(i) for i in rf.findtp(arr)] == [0] + exp + [n - 1])
    exp = ref_cross([sgn(a - v) for a in x])
    ctx.check("crossings", [int(i) for i in rf.findcross(arr, v)] == exp)
    ctx.check("up", [int(i) for i in rf.findcross(arr, v, "u")]
              == [i for i in exp if bool(x[i + 1] > v)])
    ctx.reach("done")


def short(ctx):
    import py_fatigue.cycle_count.rainflow as rf

    x = ctx.real("x", lo=-10, hi=10)
    ctx.check("one sample", len(rf.findtp(ctx.array([x]))) == 0)
    ctx.check("none", len(rf.findcross(ctx.array([x]))) == 0)


def nan(ctx, n, pos):
    import py_fatigue.cycle_count.rainflow as rf

    x = raw(ctx, n)
    x[pos] = float("nan")
    arr = ctx.array(x)
    ctx.raises("nan", ValueError, rf.findcross, arr, 0.0)
    ctx.raises("nan", ValueError, rf.findtp, arr)
    ctx.raises("nan", ValueError, rf.rainflow, arr)


def cases(tier):
    big = tier == "thorough"
    cs = [
        Case("cross%d" % n, cross, n=n,
             bounds="%d samples, any level" % n,
             must_reach=["crossing"] + (["two"] if n > 2 else []))
        for n in [2, 3, 4, 5] + ([6, 7] if big else [])
    ]
    cs += [
        Case("zero4", cross, n=4, level=False, bounds="4 samples, level 0",
             must_reach=["two"]),
        Case("list4", cross, n=4, kind="list", bounds="4 samples in a list",
             must_reach=["two"]),
        Case("long66k", lengthy, n=66000, free=(-2,), must_reach=["done"],
             bounds="66000 samples, one free within +-40, level 0.25"),
        Case("long300", lengthy, n=300, free=(5, 200, -2),
             must_reach=["done"],
             bounds="300 samples, 3 free within +-40, level in +-2"),
        Case("short", short, bounds="1 sample"),
    ]
    cs += [
        Case("extrema%d" % n, extrema, n=n, bounds="%d samples" % n,
             must_reach=["inner"] if n > 2 else [])
        for n in [2, 3, 4, 5, 6] + ([7, 8] if big else [])
    ]
    cs += [
        Case("nan%d" % p, nan, n=4, pos=p, bounds="4 samples, NaN at %d" % p)
        for p in range(4)
    ]
    return also(cs, "cross4", "extrema4")
