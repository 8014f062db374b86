"""C20: DNVGL mean stress correction."""
from engine.case import Case
from harness.counts import given
from harness.warm import also

FUNCTIONS = ["mean_stress.corrections.dnvgl_mean_stress_correction"]
ASSUMPTIONS = ["amplitudes are positive", "with detail factor 0.6 the "
               "maximum stress is not within 1e-4 of zero, where the "
               "correction jumps"]


def draw(ctx, n, p, name=""):
    a = [ctx.real("%sa%d" % (name, i), lo=1e-2, hi=1e3) for i in range(n)]
    m = [ctx.real("%sm%d" % (name, i), lo=-2e3, hi=2e3) for i in range(n)]
    if n > 20:  # only the last cycle is free
        a = [given(i, 83, 3.0) for i in range(n - 1)] + a[-1:]
        m = [given(i, 53, -6.0) + 0.05 for i in range(n - 1)] + m[-1:]
    if p == 0.6:
        for x, y in zip(a, m):
            ctx.assume(abs(x + y) >= 1e-4)
    return a, m


def call(ctx, m, a, p=None):
    from py_fatigue.mean_stress.corrections import (
        dnvgl_mean_stress_correction)

    A = ctx.array(a), ctx.array(m)
    if p is None:
        out = dnvgl_mean_stress_correction(A[1], A[0])
    else:
        out = dnvgl_mean_stress_correction(A[1], A[0], p)
    ctx.check("len", len(out) == len(a))
    return out, A


def oracle(ctx, a, m, p):
    hi, lo = m + a, m - a
    if bool(lo >= 0):
        ctx.reach("tension")
        return 2 * a
    if bool(hi > 0):
        ctx.reach("both")
        return hi - p * lo
    ctx.reach("compression")
    return p * 2 * a if p == 0.8 else 0.0


def formula(ctx, n, p):
    q = 0.8 if p is None else p
    a, m = draw(ctx, n, q)
    out, (A, M) = call(ctx, m, a, p)
    for i in range(n):
        ctx.eq("range", out[i], oracle(ctx, a[i], m[i], q))
    ctx.eq_list("amplitude kept", list(A), a)
    ctx.eq_list("mean kept", list(M), m)


def bounds(ctx, n, p):
    a, m = draw(ctx, n, p)
    out, _ = call(ctx, m, a, p)
    for i in range(n):
        ctx.le("upper", out[i], 2 * a[i])
        if p == 0.8 or bool(m[i] + a[i] > 0):
            ctx.le("lower", p * 2 * a[i], out[i])
            ctx.reach("factor")
        else:
            ctx.eq("none", out[i], 0.0)


def monotone(ctx, p):
    a, m = draw(ctx, 1, p)
    d = ctx.real("d", lo=0, hi=2e3)
    if p == 0.6:
        ctx.assume(abs(m[0] + d + a[0]) >= 1e-4)
    out, _ = call(ctx, [m[0], m[0] + d], [a[0], a[0]], p)
    ctx.le("mean", out[0], out[1])
    ctx.reach("done")


def scaling(ctx, p, n=1):
    a, m = draw(ctx, n, p)
    k = ctx.pos("k", 0.25, 8.0)
    if p == 0.6:
        for x, y in zip(a, m):
            ctx.assume(abs(x + y) >= 1e-2)
    one, _ = call(ctx, m, a, p)
    two, _ = call(ctx, [k * x for x in m], [k * x for x in a], p)
    for i in range(n):
        ctx.eq("scaled", two[i], k * one[i])
    ctx.reach("done")


def refuse(ctx, n):
    a, m = draw(ctx, n, 0.8)
    p = ctx.real("p", lo=-2, hi=3)
    ctx.assume(abs(p - 0.6) >= 1e-9)
    ctx.assume(abs(p - 0.8) >= 1e-9)
    ctx.raises("factor", ValueError, lambda: call(ctx, m, a, p))
    for q in (0, 1, 0.7, 0.5, 2):
        ctx.raises("factor %s" % q, ValueError, lambda: call(ctx, m, a, q))
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach, **p):
        cs.append(Case(name, fn, must_reach=reach, bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())) +
            ", means +-2000, amplitudes 0.01..1000", **p))

    three = ["tension", "both", "compression"]
    for p in (0.8, 0.6, None):
        nm = "default" if p is None else "p%d" % (10 * p)
        for n in (1, 2, 3) + ((4, 5) if big else ()):
            add("formula_%s_%d" % (nm, n), formula, three, n=n, p=p)
        if p is None:
            continue
        add("bounds_" + nm, bounds, ["factor"], n=2, p=p)
        add("monotone_" + nm, monotone, ["done"], p=p)
        add("scaling_" + nm, scaling, ["done"], p=p)
        if big:
            add("scaling2_" + nm, scaling, ["done"], p=p, n=2)
        add("many_" + nm, formula, three, n=300, p=p)
    add("refuse", refuse, ["done"], n=2)
    return also(cs, "formula_p8_2", "formula_p6_1")
