"""C35: plots of cycle counts and damage."""
from engine.case import Case
from harness import draw
from harness.counts import count, freeze, relabel, same
from harness.curves import sn_curve

FUNCTIONS = ["cycle_count.CycleCount.plot_histogram",
             "cycle_count.CycleCount.plot_residuals_sequence",
             "cycle_count.CycleCount.plot_half_cycles_sequence",
             "cycle_count.utils.plot_aggregated_residuals",
             "damage.stress_life.PalmgrenMiner.plot_histogram",
             "mean_stress.corrections.dnvgl_mean_stress_correction",
             "mean_stress.corrections.walker_mean_stress_correction",
             "mean_stress.corrections.swt_mean_stress_correction",
             "cycle_count.histogram.xy_hist2d", "utils.make_axes"]
ASSUMPTIONS = ["stand-ins for matplotlib figures and axes record what is "
               "drawn; rendering itself is not looked at",
               "counts from the listed choices; ranges, means and residuals "
               "arbitrary within the bounds; bins given by their edges"]
EDGES = [-5000.0, 0.0, 5000.0]


def spread(c, r, m):
    """one (range, mean) per full cycle and per half cycle"""
    out = []
    for n, a, b in zip(c, r, m):
        out += [(a, b)] * (int(n) + (n % 1 == 0.5))
    return out


def points(ctx, ax):
    ctx.check("once", len(ax.drawn) == 1 and ax.drawn[0][0] == "points")
    _, x, y, k = ax.drawn[0]
    ctx.check("len", len(x) == len(y) == len(k["c"]))
    return x, y, list(k["c"]), k


def cloud(ctx, n, counts, kind, how="none", mode=None, func=False):
    """min/max or mean/range of every cycle"""
    cc, c, r, m, _ = count(ctx, n, counts=counts, unit="ksi")
    before = freeze(cc)
    kw = {"bins": [ctx.array(EDGES), ctx.array(EDGES)]}
    if kind is not None:
        kw["plot_type"] = kind
    if mode:
        kw["mode"] = mode
    if func:
        kw["dens_func"] = lambda d: 3 * d + 1
    ax = draw.where(ctx, how,
                    lambda **w: cc.plot_histogram(s=7, **kw, **w))
    x, y, col, opt = points(ctx, ax)
    ctx.check("options", opt["s"] == 7)
    if kind == "mean-range":
        exp = [(b, a) for a, b in spread(c, r, m)]
    else:
        exp = [(b - a / 2, b + a / 2) for a, b in spread(c, r, m)]
    cell = [(bool(a < 0), bool(b < 0)) for a, b in exp]
    dens = [float(cell.count(k)) for k in cell]
    if func:
        dens = [3 * d + 1 for d in dens]
    ctx.matching("cycles", list(zip(x, y, col)),
                 [(a, b, d) for (a, b), d in zip(exp, dens)])
    first, second = (("Mean", "Range") if kind == "mean-range"
                     else ("Min", "Max"))
    ctx.check("axes", first.lower() in ax.texts["x"].lower()
              and second.lower() in ax.texts["y"].lower()
              and "ksi" in ax.texts["x"] and "ksi" in ax.texts["y"])
    same(ctx, "kept", before, freeze(cc))
    ctx.reach("done")


def ordered(ctx, n, counts, kind, how="none"):
    """counts against ranges, largest first, possibly cumulated"""
    cc, c, r, m, _ = count(ctx, n, counts=counts)
    for i in range(n):
        for j in range(i):
            ctx.assume(abs(r[i] - r[j]) >= 1e-3)
    before = freeze(cc)
    ax = draw.where(ctx, how,
                    lambda **w: cc.plot_histogram(plot_type=kind, **w))
    x, y, col, _ = points(ctx, ax)
    exp = []
    for i in range(n):
        k = c[i]
        if "cumsum" in kind:
            k = sum(c[j] for j in range(n) if bool(r[j] >= r[i]))
        exp.append((k, r[i], c[i]))
    ctx.matching("cycles", list(zip(x, y, col)), exp)
    for a, b in zip(y, y[1:]):
        ctx.le("largest first", b, a)
    same(ctx, "kept", before, freeze(cc))
    ctx.reach("done")


def residuals(ctx, n, how="none", half=False):
    """the residual sequence and its own residuals"""
    from py_fatigue.cycle_count.rainflow import rainflow

    cc, c, r, m, res = count(ctx, 1, counts=(1.0,), nres=n)
    before = freeze(cc)
    fn = cc.plot_half_cycles_sequence if half else cc.plot_residuals_sequence
    ax = draw.where(ctx, how, lambda **w: fn(lw=3, **w))
    ctx.check("lines", len(ax.drawn) == 2)
    (_, x, y, k), (_, p, q, o) = ax.drawn
    ctx.check("options", k.get("lw") == 3 and o.get("lw") == 3)
    ctx.eq_list("places", x, [float(i) for i in range(n)])
    ctx.eq_list("residuals", y, res)
    _, seq, idx = rainflow(ctx.array(res), extended_output=True)
    ctx.eq_list("second places", p, [float(i) for i in idx])
    ctx.eq_list("second", q, list(seq))
    for i, v in zip(p, q):
        ctx.eq("at its place", v, res[int(i)])
    same(ctx, "kept", before, freeze(cc))
    ctx.reach("done")


def damage(ctx, n, how="none", func=False, labels=False):
    sn = sn_curve(ctx, 1, (3.0,))
    cc, c, r, m, _ = count(ctx, n, counts=(0.5, 20.0), lo=1.0, log=True)
    df = cc.to_df()
    if labels:
        df = relabel(df)
    df.miner.damage(sn.curve)
    d = list(df["pm_damage"])
    kw = {"dens_func": lambda v: 3 * v + 1} if func else {}
    ax = draw.where(ctx, how,
                    lambda **w: df.miner.plot_histogram(s=4, **kw, **w))
    x, y, col, opt = points(ctx, ax)
    ctx.check("options", opt["s"] == 4)
    want = [3 * v + 1 for v in d] if func else d
    ctx.check("len", len(x) == n)
    for i in range(n):
        ctx.eq("count", x[i], c[i])
        ctx.eq("range", y[i], r[i])
        if func:
            ctx.eq("damage", col[i], want[i])
        else:
            ctx.eq("damage", ctx.log(col[i]), ctx.log(want[i]))
    ctx.eq_list("damage kept", [ctx.log(v) for v in df["pm_damage"]],
                [ctx.log(v) for v in d])
    ctx.reach("done")


def periods(ctx, sizes):
    """one line per aggregation period"""
    from py_fatigue.cycle_count.utils import plot_aggregated_residuals

    dct, exp = {}, []
    for j, n in enumerate(sizes):
        v = ctx.reals("v%d" % j, n, lo=-100, hi=100)
        w = ctx.reals("w%d" % j, n, lo=-100, hi=100)
        i = [float(2 * k + j) for k in range(n)]
        dct["p%d" % j] = {"a": {"idx": ctx.array(i), "res": ctx.array(v)},
                          "b": {"idx": ctx.array(i[::-1]),
                                "res": ctx.array(w)}}
        exp.append((i, v))
    with draw.pyplot() as fig:
        f, ax = plot_aggregated_residuals(dct, "a")
        ctx.check("figure", f is fig and ax is fig.pen)
    ctx.check("lines", len(ax.drawn) == len(sizes))
    for j, ((_, x, y, k), (i, v)) in enumerate(zip(ax.drawn, exp)):
        ctx.eq_list("places", x, i)
        ctx.eq_list("residuals", y, v)
        ctx.check("label", k.get("label") == "p%d" % j)
    ctx.reach("done")


def corrected(ctx, rule, n):
    """asking for the plot of a mean stress correction"""
    from py_fatigue.mean_stress import corrections as msc

    fn = getattr(msc, rule + "_mean_stress_correction")
    if rule == "dnvgl":
        a = [ctx.real("a%d" % i, lo=1e-2, hi=1e3) for i in range(n)]
        x = [ctx.real("x%d" % i, lo=-2e3, hi=2e3) for i in range(n)]
        for v in x:
            ctx.assume(abs(v) >= 1e-2)
    else:
        a = [ctx.pos("a%d" % i, 1e-2, 1e3) for i in range(n)]
        x = [ctx.pos("x%d" % i, 1e-2, 1e3) for i in range(n)]
    m = [u - v for u, v in zip(x, a)]
    want = list(fn(ctx.array(m), ctx.array(a)))
    with draw.pyplot() as fig:
        got = list(fn(ctx.array(m), ctx.array(a), plot=True))
    ctx.check("n", len(got) == n)
    ctx.check("line", len(fig.pen.drawn) == 1)
    _, p, q, _ = fig.pen.drawn[0]
    ctx.check("points", len(p) == len(q) == n)
    for u, v in zip(got, want):
        if rule == "dnvgl":
            ctx.eq("same", u, v)
        else:
            ctx.eq("same", ctx.log(u), ctx.log(v))
    if rule == "dnvgl":
        ctx.matching("drawn", [(u, v) for u, v in zip(p, q)], [
            ((y - 2 * b) / y, w / (2 * b)) for y, b, w in zip(x, a, want)])
    else:
        ctx.matching("drawn", list(zip(p, q)), [
            (2 * b, w) for b, w in zip(a, want)])
    for u, v in zip(p, p[1:]):
        ctx.le("ascending", u, v)
    ctx.reach("done")


def refused(ctx, n):
    cc = count(ctx, n, nres=3)[0]
    with draw.pyplot() as fig:
        for t in ("", "Min-Max", "counts", "mean-max", "range-mean"):
            ctx.raises("type", ValueError, cc.plot_histogram, plot_type=t)
        ctx.raises("figure", TypeError, cc.plot_residuals_sequence,
                   fig="fig")
        ctx.check("nothing", not fig.pen.drawn)
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, **p):
        cs.append(Case(name, fn, must_reach=["done"], bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    some = (0.5, 1.0, 2.5)
    for kind in ("min-max", "mean-range"):
        t = kind.replace("-", "_")
        add(t + "1", cloud, n=1, counts=(0.5, 1.0, 2.0, 3.5), kind=kind)
        add(t + "2", cloud, n=2, counts=some, kind=kind, how="figure")
        add(t + "3", cloud, n=3, counts=(0.5, 1.0) if big else (1.0,),
            kind=kind, how="axes")
        add(t + "_valley", cloud, n=2, counts=(0.5, 1.0), kind=kind,
            mode="valley")
        add(t + "_func", cloud, n=2, counts=(0.5, 2.0), kind=kind, func=True)
        if big:
            add(t + "4", cloud, n=4, counts=(1.0,), kind=kind)
    add("default", cloud, n=2, counts=(0.5, 1.0), kind=None)
    for kind in ("counts-range", "counts-range-cumsum", "counts-range-2D"):
        t = kind.replace("-", "_")
        for n in (1, 2, 3) + ((4,) if big else ()):
            add(t + str(n), ordered, n=n, counts=some if n < 4 else
                (0.5, 20.0), kind=kind, how=("none", "figure", "axes",
                                             "none")[n - 1])
    for n in (3, 4, 5) + ((6,) if big else ()):
        add("residuals%d" % n, residuals, n=n,
            how=("none", "figure", "axes")[n % 3])
    add("half4", residuals, n=4, half=True)
    add("damage2", damage, n=2)
    add("damage3", damage, n=3, how="axes", labels=True)
    add("damage_func", damage, n=2, how="figure", func=True)
    add("periods", periods, sizes=(2, 0, 3))
    add("period", periods, sizes=(1,))
    for rule in ("dnvgl", "walker", "swt"):
        for n in (1, 2) + ((3,) if big else ()):
            add("%s%d" % (rule, n), corrected, rule=rule, n=n)
    add("refused", refused, n=2)
    return cs
