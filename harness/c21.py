"""C21: Walker and Smith-Watson-Topper corrections."""
from engine.case import Case
from harness.counts import given
from harness.warm import also

FUNCTIONS = ["mean_stress.corrections.walker_mean_stress_correction",
             "mean_stress.corrections.swt_mean_stress_correction"]
ASSUMPTIONS = ["amplitudes are positive; gamma from a grid; maximum stress "
               "not within 1e-4 of zero",
               "powers are compared through their logarithms"]


def draw(ctx, n, lo=1e-4):
    """cycles given by amplitude and maximum, either sign"""
    a, mx, pos = [], [], []
    for i in range(n):
        if n > 20 and i < n - 1:  # only the last cycle is free
            a.append(given(i, 83, 3.0))
            mx.append(given(i, 53, 1.0) if i % 5 else -2.0)
            pos.append(i % 5 > 0)
            continue
        a.append(ctx.pos("a%d" % i, 1e-2, 1e3))
        x = ctx.pos("x%d" % i, lo, 3e3)
        pos.append(ctx.bool("tension%d" % i))
        mx.append(x if pos[-1] else -x)
    return a, mx, pos


def call(ctx, rule, gamma, m, a):
    from py_fatigue.mean_stress import corrections as msc

    A = ctx.array(a), ctx.array(m)
    if rule == "swt":
        out = msc.swt_mean_stress_correction(A[1], A[0])
    elif gamma is None:
        out = msc.walker_mean_stress_correction(A[1], A[0])
    else:
        out = msc.walker_mean_stress_correction(A[1], A[0], gamma)
    ctx.check("len", len(out) == len(a))
    return out, A


def formula(ctx, rule, n, gamma=None):
    g = 0.5 if gamma is None else gamma
    a, mx, pos = draw(ctx, n)
    m = [x - y for x, y in zip(mx, a)]
    out, (A, M) = call(ctx, rule, gamma, m, a)
    for i in range(n):
        if not pos[i]:
            ctx.reach("compression")
            if 0.0 < g < 1.0:
                ctx.eq("none", out[i], 0.0)
            continue
        ctx.reach("tension")
        ctx.eq("range", ctx.log(out[i]),
               (1 - g) * ctx.log(mx[i]) + g * ctx.log(a[i]))
    ctx.eq_list("amplitude kept", list(A), a)
    ctx.eq_list("mean kept", list(M), m)
    ctx.reach("done")


def reversed_(ctx, rule, gamma=None):
    """a zero mean cycle keeps its amplitude"""
    a = ctx.pos("a", 1e-2, 1e3)
    out, _ = call(ctx, rule, gamma, [0.0], [a])
    ctx.eq("zero mean", ctx.log(out[0]), ctx.log(a))
    ctx.reach("done")


def monotone(ctx, rule, gamma=None):
    a = ctx.pos("a", 1e-2, 1e3)
    x, y = ctx.pos("x", 1e-4, 3e3), ctx.pos("y", 1e-4, 3e3)
    ctx.assume(x <= y)
    out, _ = call(ctx, rule, gamma, [x - a, y - a], [a, a])
    ctx.le("mean", ctx.log(out[0]), ctx.log(out[1]))
    if gamma is None or 0 < gamma < 1:
        low, _ = call(ctx, rule, gamma, [-x - a, y - a], [a, a])
        ctx.le("compression", low[0], low[1])
    ctx.reach("done")


def scaling(ctx, rule, gamma=None):
    a = ctx.pos("a", 1e-2, 1e3)
    x, k = ctx.pos("x", 1e-2, 3e3), ctx.pos("k", 0.1, 10.0)
    one, _ = call(ctx, rule, gamma, [x - a], [a])
    two, _ = call(ctx, rule, gamma, [k * x - k * a], [k * a])
    ctx.eq("scaled", ctx.log(two[0]), ctx.log(one[0]) + ctx.log(k))
    ctx.reach("done")


def same(ctx, n):
    """SWT is Walker with one half"""
    a, mx, pos = draw(ctx, n)
    m = [x - y for x, y in zip(mx, a)]
    s, _ = call(ctx, "swt", None, m, a)
    w, _ = call(ctx, "walker", 0.5, m, a)
    d, _ = call(ctx, "walker", None, m, a)
    for i in range(n):
        if pos[i]:
            ctx.eq("swt", ctx.log(s[i]), ctx.log(w[i]))
            ctx.eq("default", ctx.log(d[i]), ctx.log(w[i]))
        else:
            ctx.eq("swt", s[i], 0.0)
            ctx.eq("default", d[i], 0.0)
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach, **p):
        cs.append(Case(name, fn, must_reach=reach, bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())) +
            ", maxima +-3000, amplitudes 0.01..1000", **p))

    grid = [("swt", None), ("walker", None), ("walker", 0.25),
            ("walker", 0.5), ("walker", 0.7), ("walker", 0.9),
            ("walker", 1.0)]
    if big:
        grid += [("walker", x) for x in (0.1, 1 / 3, 0.45, 0.65, 0.8)]
    for r, g in grid:
        nm = r if g is None else "%s_%s" % (r, str(round(g, 3)))
        for n in (1, 2, 3) + ((4,) if big else ()):
            add("formula_%s_n%d" % (nm, n), formula,
                ["tension", "compression", "done"], rule=r, gamma=g, n=n)
        add("zero_" + nm, reversed_, ["done"], rule=r, gamma=g)
        add("monotone_" + nm, monotone, ["done"], rule=r, gamma=g)
        add("scaling_" + nm, scaling, ["done"], rule=r, gamma=g)
    add("many_walker", formula, ["tension", "done"], rule="walker", gamma=0.7,
        n=300)
    add("many_swt", formula, ["tension", "done"], rule="swt", gamma=None,
        n=300)
    add("same", same, ["done"], n=2)
    return also(cs, "formula_walker_0.5_n2", "formula_swt_n2")
