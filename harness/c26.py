"""C26: histograms of cycles."""
from engine.case import Case
from harness.counts import given as cycle
from harness.warm import also

FUNCTIONS = ["cycle_count.histogram.make_histogram",
             "cycle_count.histogram.map_hist",
             "cycle_count.histogram.xy_hist2d", "utils.make_axes"]
ASSUMPTIONS = ["numpy.histogram2d and digitize are modelled by their "
               "documentation",
               "points may lie on given edges; they are not within 1e-6 of "
               "edges computed from a number of bins, except the outermost",
               "a stand-in for the matplotlib axes records what is drawn"]


def where(v, e):
    """index of the bin holding v, None outside"""
    if bool(v < e[0]) or bool(v > e[-1]):
        return None
    for i in range(len(e) - 2):
        if bool(v < e[i + 1]):
            return i
    return len(e) - 2


def edges(ctx, name, n, sym):
    if not sym:
        return [0.0, 1.0, 4.0, 4.5][:n + 1]
    e = [ctx.real(name + "0", lo=-50, hi=50)]
    for i in range(n):
        e.append(e[-1] + ctx.real("%s%d" % (name, i + 1), lo=0.01, hi=50))
    return e


def spaced(ctx, v, n, rng):
    """edges for a number of bins"""
    if rng is None:
        lo, hi = v[0], v[0]
        for x in v[1:]:
            if bool(x < lo):
                lo = x
            if bool(x > hi):
                hi = x
        if bool(lo == hi):
            ctx.reach("flat")
            lo, hi = lo - 0.5, hi + 0.5
        else:
            ctx.assume(hi - lo >= 1e-3)
    else:
        lo, hi = rng
    e = [lo + (hi - lo) * i / n for i in range(n)] + [hi]
    for x in v:
        for i, b in enumerate(e):
            if not (rng is None and i in (0, n)):
                ctx.assume(abs(x - b) >= 1e-6)
    return e


def points(ctx, n, lo=-100, hi=100):
    x, y = ctx.reals("x", n, lo=lo, hi=hi), ctx.reals("y", n, lo=lo, hi=hi)
    if n > 20:  # only the last point is free
        x = [cycle(i, 83, -8.0) for i in range(n - 1)] + x[-1:]
        y = [cycle(i, 53, -6.0) for i in range(n - 1)] + y[-1:]
    return x, y


def content(ctx, x, y, w, ex, ey):
    h = [[0.0] * (len(ey) - 1) for _ in range(len(ex) - 1)]
    at = []
    for i, (a, b) in enumerate(zip(x, y)):
        k, j = where(a, ex), where(b, ey)
        at.append(None if k is None or j is None else (k, j))
        if at[-1] is None:
            ctx.reach("outside")
        else:
            h[k][j] = h[k][j] + (1.0 if w is None else w[i])
            ctx.reach("inside")
    return h, at


def same(ctx, h, want, normed, ex, ey):
    ctx.check("shape", tuple(h.shape) == (len(ex) - 1, len(ey) - 1))
    tot = 0.0
    for r in want:
        for v in r:
            tot = tot + v
    for i in range(len(ex) - 1):
        for j in range(len(ey) - 1):
            if normed:
                ctx.eq("density", h[i, j] * (tot * (ex[i + 1] - ex[i]) * (
                    ey[j + 1] - ey[j])), want[i][j])
            else:
                ctx.eq("content", h[i, j], want[i][j])


def hist(ctx, n, bins, given, rng=False, normed=False, weighted=False,
         pair=True, symy=True):
    from py_fatigue.cycle_count.histogram import make_histogram

    x, y = points(ctx, n)
    w = ctx.reals("w", n, lo=0.1, hi=10) if weighted else None
    kw = {}
    if given != "number":
        ex = edges(ctx, "ex", bins[0], given == "any")
        ey = edges(ctx, "ey", bins[1], given == "any" and symy) if pair else ex
        kw["bins"] = [ctx.array(ex), ctx.array(ey)] if pair else ctx.array(ex)
    else:
        br = None
        if rng:
            br = [[ctx.real("lo", lo=-90, hi=0), ctx.real("hi", lo=1, hi=90)],
                  [-10.0, 30.0]]
            kw["bin_range"] = br
        ex = spaced(ctx, x, bins[0], br and br[0])
        ey = spaced(ctx, y, bins[1], br and br[1])
        if bins != [10, 10]:
            kw["bins"] = list(bins) if pair else bins[0]
    if weighted:
        kw["weights"] = ctx.array(w)
    if normed:
        kw["normed"] = True
    want, at = content(ctx, x, y, w, ex, ey)
    if normed:
        ctx.assume(any(a is not None for a in at))
    X, Y = ctx.array(x), ctx.array(y)
    h, (mx, my) = make_histogram(X, Y, **kw)
    ctx.eq_list("mean edges", list(mx), ex)
    ctx.eq_list("range edges", list(my), ey)
    same(ctx, h, want, normed, ex, ey)
    ctx.eq_list("x kept", list(X), x)
    ctx.eq_list("y kept", list(Y), y)


def lookup(ctx, n, bins, sym):
    """content of the bin of each point"""
    from py_fatigue.cycle_count.histogram import map_hist

    x, y = points(ctx, n)
    ex = edges(ctx, "ex", bins[0], sym)
    ey = edges(ctx, "ey", bins[1], sym)
    H = [[ctx.real("h%d%d" % (i, j), lo=0, hi=100) for j in range(bins[1])]
         for i in range(bins[0])]
    got = map_hist(ctx.array(x), ctx.array(y),
                   ctx.array([v for r in H for v in r], tuple(bins)),
                   (ctx.array(ex), ctx.array(ey)))
    ctx.check("len", len(got) == n)
    for v, a, b in zip(got, x, y):
        i, j = where(a, ex), where(b, ey)
        if i is None or j is None:
            ctx.check("nan", bool(v != v))
            ctx.reach("outside")
        else:
            ctx.eq("content", v, H[i][j])
            ctx.reach("inside")


class Axes:
    """records the points drawn"""

    def __init__(self):
        self.calls = []

    def scatter(self, x, y, *a, **k):
        self.calls.append((x, y, a, k))
        return "collection"


def isnan(v):
    return bool(v != v)


def cloud(ctx, n, mode, bins, given, weighted=False, func=False):
    from matplotlib.figure import Figure
    from py_fatigue.cycle_count.histogram import xy_hist2d

    x, y = points(ctx, n)
    w = ctx.reals("w", n, lo=0.1, hi=10) if weighted else None
    kw = {} if mode is None else {"mode": mode}
    if given == "number":
        ex, ey = spaced(ctx, x, bins[0], None), spaced(ctx, y, bins[1], None)
        kw["bins"] = list(bins)
    else:
        ex, ey = edges(ctx, "ex", bins[0], 0), edges(ctx, "ey", bins[1], 0)
        kw["bins"] = [ctx.array(ex), ctx.array(ey)]
    if weighted:
        kw["weights"] = ctx.array(w)
    if func:
        kw["dens_func"] = lambda d: 3 * d + 1
    want, at = content(ctx, x, y, w, ex, ey)
    fig, ax = Figure(), Axes()
    X, Y = ctx.array(x), ctx.array(y)
    out = xy_hist2d(X, Y, fig=fig, ax=ax, s=7, **kw)
    ctx.check("returned", len(out) == 3 and out[0] is fig and out[1] is ax
              and out[2] == "collection")
    ctx.check("drawn once", len(ax.calls) == 1)
    gx, gy, pos, opt = ax.calls[0]
    c = opt["c"]
    ctx.check("options", opt.get("s") == 7)
    ctx.check("len", len(gx) == n and len(gy) == n and len(c) == n)
    exp = []
    for a, b, k in zip(x, y, at):
        d = -1.0 if k is None else want[k[0]][k[1]]
        if func and k is not None:
            d = 3 * d + 1
        exp.append((a, b, d))
    nans = [isnan(v) for v in c]
    ctx.matching("points", [(p, q, -1.0 if z else v) for p, q, v, z in
                            zip(gx, gy, c, nans)], exp)
    dens = [v for v, z in zip(c, nans) if not z]
    for a, b in zip(dens, dens[1:]):
        ctx.le("sorted", *((b, a) if mode == "valley" else (a, b)))
    ctx.eq_list("x kept", list(X), x)
    ctx.eq_list("y kept", list(Y), y)


def refused(ctx):
    from matplotlib.figure import Figure
    from py_fatigue.cycle_count.histogram import make_histogram, xy_hist2d

    x, y = points(ctx, 2)
    m = ctx.choice("mode", ["Mountain", "", "hill", None])
    ax = Axes()
    e = ctx.array([-100.0, 0.0, 100.0])
    ctx.raises("mode", ValueError, xy_hist2d, ctx.array(x), ctx.array(y),
               mode=m, bins=e, fig=Figure(), ax=ax)
    ctx.check("nothing drawn", not ax.calls)
    ctx.raises("lengths", ValueError, make_histogram, ctx.array(x),
               ctx.array(y[:1]), bins=e)
    ctx.raises("lengths", ValueError, make_histogram, ctx.array(x[:1]),
               ctx.array(y), bins=e)
    ctx.raises("lengths", ValueError, xy_hist2d, ctx.array(x),
               ctx.array(y + [0.0]), bins=e, fig=Figure(), ax=Axes())
    ctx.raises("figure", TypeError, xy_hist2d, ctx.array(x), ctx.array(y),
               bins=e, fig=ax, ax=ax)
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach, **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())) or "two points", **p))

    io = ("inside", "outside")
    ins = ("inside",)
    add("edges_fixed", hist, io, n=2, bins=[3, 2], given="fixed")
    add("edges_any", hist, io, n=1, bins=[3, 2], given="any")
    add("edges_any2", hist, io, n=2, bins=[2, 1], given="any", symy=False)
    add("edges_shared", hist, io, n=2, bins=[2, 2], given="fixed", pair=False)
    add("edges_weights", hist, io, n=2, bins=[2, 3], given="fixed",
        weighted=True)
    add("edges_normed", hist, io, n=2, bins=[3, 2], given="fixed",
        normed=True)
    add("edges_normed_w", hist, io, n=2, bins=[1, 2], given="fixed",
        normed=True, weighted=True)
    add("number", hist, ins + ("flat",), n=2, bins=[2, 3], given="number")
    add("number3", hist, ins + ("flat",), n=3, bins=[2, 1], given="number")
    add("number_same", hist, ins, n=2, bins=[3, 3], given="number",
        pair=False)
    add("number_default", hist, ins, n=2, bins=[10, 10], given="number")
    add("number_w", hist, ins, n=2, bins=[3, 2], given="number",
        weighted=True)
    add("range", hist, io, n=1, bins=[3, 2], given="number", rng=True)
    add("range_w", hist, io, n=2, bins=[2, 2], given="number", rng=True,
        weighted=True)
    add("lookup_fixed", lookup, io, n=2, bins=[3, 2], sym=False)
    add("lookup_any", lookup, io, n=1, bins=[3, 3], sym=True)
    for m in (None, "mountain", "valley"):
        add("cloud_%s" % m, cloud, io, n=2, bins=[2, 2], given="fixed",
            mode=m)
    add("cloud_w", cloud, io, n=3, bins=[2, 1], given="fixed",
        mode="mountain", weighted=True)
    add("cloud_valley_w", cloud, io, n=3, bins=[1, 2], given="fixed",
        mode="valley", weighted=True)
    add("cloud_func", cloud, io, n=2, bins=[2, 2], given="fixed",
        mode="mountain", func=True)
    add("cloud_number", cloud, ins, n=3, bins=[2, 2], given="number",
        mode="mountain")
    add("many", hist, io, n=300, bins=[3, 3], given="fixed")
    add("many_lookup", lookup, io, n=300, bins=[3, 2], sym=False)
    add("many_cloud", cloud, io, n=300, bins=[3, 2], given="fixed",
        mode="mountain")
    add("refused", refused, ("done",))
    if big:
        add("edges_fixed3", hist, io, n=3, bins=[3, 3], given="fixed")
        add("edges_any3", hist, io, n=2, bins=[3, 2], given="any")
        add("edges_weights3", hist, io, n=3, bins=[2, 2], given="fixed",
            weighted=True)
        add("edges_normed3", hist, io, n=3, bins=[2, 2], given="fixed",
            normed=True)
        add("number4", hist, ins + ("flat",), n=4, bins=[2, 2],
            given="number")
        add("number3w", hist, ins, n=3, bins=[3, 2], given="number",
            weighted=True)
        add("range2", hist, io, n=2, bins=[4, 3], given="number", rng=True)
        add("lookup_any2", lookup, io, n=2, bins=[3, 2], sym=True)
        add("lookup_fixed3", lookup, io, n=3, bins=[3, 3], sym=False)
        for m in ("mountain", "valley"):
            add("cloud3_%s" % m, cloud, io, n=3, bins=[2, 2], given="fixed",
                mode=m)
            add("cloud4n_%s" % m, cloud, ins, n=4, bins=[2, 1],
                given="number", mode=m)
            add("cloud3w_%s" % m, cloud, io, n=3, bins=[2, 2], given="fixed",
                mode=m, weighted=True)
    return also(cs, "number")
