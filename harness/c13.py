"""C13: multiplication by a scalar."""
from engine.case import Case
from harness.counts import count, freeze, same, stamp
from harness.warm import also

FUNCTIONS = ["cycle_count.CycleCount.__mul__",
             "cycle_count.CycleCount.__rmul__",
             "cycle_count._multiplication_by_scalar"]


def one(ctx, n, p, nres=3, **kw):
    k = dict(
        range_bin_lower_bound=ctx.real(p + "lb", lo=0, hi=10),
        range_bin_width=ctx.real(p + "w", lo=0.01, hi=10),
        _mean_bin_lower_bound=ctx.real(p + "mlb", lo=-100, hi=100),
        mean_bin_width=ctx.real(p + "mw", lo=0.01, hi=10),
        nr_small_cycles=ctx.whole(p + "sm", 0, 100),
        stress_concentration_factor=ctx.real(p + "scf", lo=0.1, hi=10),
        unit="kNm", name="abc",
    )
    k.update(kw)
    return count(ctx, n, p, nres=nres, hours=2, **k)[0]


def scaled(f, k):
    g = dict(f)
    g["rows"] = [(k * r, k * m, c) for r, m, c in f["rows"]]
    for x in ("rlb", "rw", "mlb", "mw", "scf"):
        g[x] = k * f[x]
    g["res"] = [k * v for v in f["res"] or []]
    g["mm"] = [k * v for v in f["mm"]]
    return g


def mul(ctx, n, nres=3, kind="float", kw=None):
    cc = one(ctx, n, "a", nres, **(kw or {}))
    if kind == "int":
        k = ctx.int("k", 1, 5)
    else:
        k = ctx.real("k", lo=0.001, hi=1000)
    f = freeze(cc)
    exp = scaled(f, k)
    for nm, op in (("right", lambda: cc * k), ("left", lambda: k * cc)):
        g = op()
        same(ctx, nm, freeze(g), exp, skip=("name",))
        ctx.check(nm + ":name", str(g.name).startswith("abc"))
        same(ctx, nm + ":orig", freeze(cc), f)
        ctx.check(nm + ":new", g is not cc)


def twice(ctx, n):
    cc = one(ctx, n, "a", 2)
    k = ctx.real("k", lo=0.001, hi=1000)
    j = ctx.choice("j", (0.5, 2, 3.0))
    f = freeze(cc)
    g = (cc * k) * j
    same(ctx, "twice", freeze(g), scaled(f, k * j), skip=("name",))
    same(ctx, "commute", freeze(j * (k * cc)), freeze((j * k) * cc),
         skip=("name",))


def summed(ctx, n):
    """scaling and adding commute"""
    kw = dict(range_bin_lower_bound=0.25, range_bin_width=0.5,
              _mean_bin_lower_bound=-10.0, mean_bin_width=5.0,
              stress_concentration_factor=1.0)
    a = one(ctx, n, "a", 2, **kw)
    b = one(ctx, n, "b", 2, timestamp=stamp(3), **kw)
    k = ctx.real("k", lo=0.001, hi=1000)
    same(ctx, "sum", freeze((a + b) * k), freeze(a * k + b * k),
         skip=("name",))


def refuse(ctx, n):
    import numpy as np

    cc = one(ctx, n, "a", 2)
    f = freeze(cc)
    for z in ("2", None, [2.0], np.array([1.0, 2.0]), 2 + 1j, cc, {}, (2,)):
        ctx.raises("refuse:%s" % type(z).__name__, TypeError, lambda: cc * z)
        same(ctx, "orig", freeze(cc), f)
    for z in ("2", None, [2.0], 2 + 1j, {}, (2,)):
        ctx.raises("refuse:r:%s" % type(z).__name__, TypeError,
                   lambda: z * cc)


def cases(tier):
    import datetime as dt

    import numpy as np

    big = tier == "thorough"
    seq = np.array([stamp(0), stamp(1)])
    cs = [
        Case("mul%d" % n, mul, n=n, bounds="%d cycles, 3 residuals, arbitrary "
             "settings and factor" % n)
        for n in [1, 2, 3] + ([4, 5] if big else [])
    ]
    cs += [
        Case("int2", mul, n=2, kind="int", bounds="2 cycles, factors 1 to 5"),
        Case("nores2", mul, n=2, nres=0, bounds="2 cycles, no residuals"),
        Case("none1", mul, n=1, nres=0, kw=dict(residuals_sequence=None),
             bounds="1 cycle without residual sequence"),
        Case("solved1", mul, n=1, nres=2,
             kw=dict(lffd_solved=True, mean_stress_corrected="SWT: {}"),
             bounds="1 cycle, resolved and corrected"),
        Case("times1", mul, n=1, nres=2, kw=dict(_time_sequence=seq),
             bounds="1 cycle over two instants"),
        Case("twice2", twice, n=2, bounds="2 cycles, two factors"),
        Case("sum1", summed, n=1, bounds="two counts of 1 cycle"),
        Case("refuse1", refuse, n=1, bounds="1 cycle, non-numeric factors"),
    ]
    cs.append(Case("mul300", mul, n=300,
                   bounds="300 rows, the last one free"))
    return also(cs, "mul2")
