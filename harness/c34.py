"""C34: plots of material curves."""
from engine.case import Case
from harness import draw
from harness.c23 import paris
from harness.curves import sn_curve

FUNCTIONS = ["material.SNCurve.plot", "material.SNCurve.plotly",
             "material.ParisCurve.plot",
             "material.sn_curve._sn_curve_data_points",
             "material.crack_growth_curve._paris_curve_data_points",
             "utils.make_axes"]
ASSUMPTIONS = ["stand-ins for matplotlib figures, axes and plotly traces "
               "record what is drawn; rendering itself is not looked at",
               "slopes from a grid; intercepts, endurance, threshold and "
               "critical value within the bounds",
               "the steep ends drawn at threshold and critical value of a "
               "Paris curve are not compared with the curve"]


class Trace:
    def __init__(self, x=None, y=None, **k):
        self.x, self.y = list(x), list(y)
        for n, v in k.items():
            setattr(self, n, v)


def traces(sn, **kw):
    """the (x, y) lists of a plotly figure; plotly's classes stand in"""
    import plotly.graph_objs as go

    old = {n: getattr(go, n) for n in ("Scattergl", "Scatter")}
    try:
        for n in old:
            setattr(go, n, Trace)
        data, layout = sn.plotly(**kw)
    finally:
        for n, v in old.items():
            setattr(go, n, v)
    return [(t.x, t.y) for t in data], [t.name for t in data], layout


def on_curve(ctx, x, y, law):
    ctx.check("len", len(x) == len(y) and len(x) > 1)
    want = list(law(ctx.array(x)))
    for a, b in zip(y, want):
        ctx.eq("on curve", ctx.log(a), ctx.log(b))
    for a, b in zip(x, x[1:]):
        ctx.le("ascending", ctx.log(a), ctx.log(b))


def among(ctx, label, v, x):
    lv = ctx.log(v)
    for a in x:
        if bool(abs(ctx.log(a) - lv) <= 1e-9):
            return
    ctx.check(label, False)


def measured(ctx, form, n):
    a = [ctx.pos("mx%d" % i, 1.0, 1e9) for i in range(n)]
    b = [ctx.pos("my%d" % i, 1.0, 1e9) for i in range(n)]
    if form == "number":
        return a, b, a[0], b[0]
    if form == "array":
        return a, b, ctx.array(a), ctx.array(b)
    return a, b, list(a), list(b)


def sn(ctx, k, slopes, end=False, how="none", data=None, alo=10.0, ahi=14.0,
       elo=1e5, ehi=1e8, fixed=None, plotly=False):
    from py_fatigue.material import SNCurve

    kw = {"curve": "Q", "environment": "Air", "norm": "Own", "unit_string": "ksi"}
    if fixed:
        kw["endurance"] = e = ctx.pos("end", elo, ehi) if end else float("inf")
        curve = SNCurve(list(slopes), list(fixed), **kw)
    else:
        aa = [ctx.real("a%d" % i, lo=alo if i == 0 else ahi + 1.2 * i - 1,
                       hi=ahi + 1.2 * i) for i in range(k)]
        e = ctx.pos("end", elo, ehi) if end else float("inf")
        kw["endurance"] = e
        try:
            curve = SNCurve(list(slopes), aa, **kw)
        except ValueError:
            ctx.assume(False)
    opt, m = {}, []
    if data:
        a, b, da, db = measured(ctx, data, 1 if data == "number" else 2)
        opt = {"cycles": da, "stress_range": db, "dataset_name": "seen"}
        m = [(a, b)]
    if plotly:
        got, names, layout = traces(curve, **opt)
        ctx.check("axis", "ksi" in layout.yaxis.title.text)
    else:
        ax = draw.where(ctx, how, lambda **w: curve.plot(**opt, **w))
        got = [(d[1], d[2]) for d in ax.drawn]
        names = [d[3].get("label") for d in ax.drawn]
        ctx.check("axis", "ksi" in ax.texts["y"])
    ctx.check("lines", len(got) == 1 + len(m))
    ctx.check("names", names == [curve.name] + ["seen"] * len(m))
    x, y = got[0]
    on_curve(ctx, x, y, curve.get_stress)
    for v in curve.get_knee_cycles():
        among(ctx, "knee drawn", v, x)
        ctx.reach("knee")
    if end:
        among(ctx, "endurance drawn", e, x)
        ctx.reach("endurance")
    for (a, b), (p, q) in zip(m, got[1:]):
        ctx.eq_list("data x", p, a)
        ctx.eq_list("data y", q, b)
        ctx.reach("data")
    ctx.reach("done")


def crack(ctx, k, slopes, th, cr, how="none", data=None):
    o = paris(ctx, k, slopes, th, cr)
    for g in o.gaps:
        ctx.assume(g >= 1e-3)
    opt, m = {}, []
    if data:
        a, b, da, db = measured(ctx, data, 1 if data == "number" else 2)
        opt = {"sif": da, "growth_rate": db, "dataset_name": "seen"}
        m = [(a, b)]
    ax = draw.where(ctx, how, lambda **w: o.curve.plot(**opt, **w))
    got = [(d[1], d[2]) for d in ax.drawn]
    names = [d[3].get("label") for d in ax.drawn]
    ctx.check("lines", len(got) == 1 + len(m))
    ctx.check("names", names == [o.curve.name] + ["seen"] * len(m))
    ctx.check("axis", o.curve.unit in ax.texts["x"])
    x, y = got[0]
    ctx.check("len", len(x) == len(y) and len(x) > 6)
    for a, b in zip(x, x[1:]):
        ctx.le("ascending", ctx.log(a), ctx.log(b), abs_=1e-5)
    inner = slice(2 if th else 0, len(x) - 2 if cr else len(x))
    want = list(o.curve.get_growth_rate(ctx.array(x[inner])))
    for a, b in zip(y[inner], want):
        ctx.eq("on curve", ctx.log(a), ctx.log(b))
    if th:
        ctx.eq("from threshold", ctx.log(x[0]), o.lth)
    if cr:
        ctx.eq("to critical", ctx.log(x[-1]), o.lcr)
    for v in o.curve.get_knee_sif():
        among(ctx, "knee drawn", v, x)
        ctx.reach("knee")
    for (a, b), (p, q) in zip(m, got[1:]):
        ctx.eq_list("data x", p, a)
        ctx.eq_list("data y", q, b)
        ctx.reach("data")
    ctx.reach("done")


def unequal(ctx, n):
    """measured data of unequal length are refused"""
    from py_fatigue.material import ParisCurve, SNCurve

    s = SNCurve([3.0, 5.0], [12.0, 16.0])
    p = ParisCurve([3.0], [1e-12])
    a, b, _, _ = measured(ctx, "list", n)
    b = b[:-1]
    with draw.pyplot():
        for u, v in ((a, b), (b, a)):
            ctx.raises("sn", ValueError, s.plot, list(u), list(v))
            ctx.raises("plotly", ValueError, s.plotly, list(u), list(v))
            ctx.raises("paris", ValueError, p.plot, list(u), list(v))
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=(), **p):
        cs.append(Case(name, fn, must_reach=list(reach) + ["done"],
                       bounds=", ".join("%s=%s" % q
                                        for q in sorted(p.items())), **p))

    for pl in (False, True):
        t = "plotly_" if pl else "plot_"
        add(t + "one", sn, k=1, slopes=(3.0,), plotly=pl)
        add(t + "one_data", sn, ["data"], k=1, slopes=(4.5,), data="list",
            how="figure", plotly=pl)
        add(t + "one_number", sn, ["data"], k=1, slopes=(3.0,),
            data="number", how="axes", plotly=pl)
        add(t + "two", sn, ["knee"], k=2, slopes=(3.0, 5.0), plotly=pl,
            alo=11.5, ahi=12.0)
        add(t + "end", sn, ["endurance"], k=1, slopes=(3.0,), end=True,
            fixed=(12.0,), plotly=pl, elo=1e6, ehi=1e10 if big else 1e7)
        add(t + "two_end", sn, ["knee", "endurance"], k=2, slopes=(3.0, 5.0),
            end=True, fixed=(12.164, 15.606), elo=1.2e7,
            ehi=1e9 if big else 4e7, plotly=pl, data="array")
        add(t + "three", sn, ["knee"], k=3, slopes=(3.0, 4.0, 5.0),
            fixed=(11.0, 12.5, 14.2), plotly=pl)
    for nm, k, s in (("one", 1, (3.0,)), ("two", 2, (5.1, 2.88))):
        for th, cr in ((0, 0), (1, 1), (1, 0), (0, 1)):
            if k == 2 and not big and th != cr:
                continue
            add("paris_%s_%d%d" % (nm, th, cr), crack,
                ["knee"] * (k > 1), k=k, slopes=s, th=bool(th), cr=bool(cr),
                how="figure" if th else "none")
    add("paris_data", crack, ["data"], k=1, slopes=(3.0,), th=False,
        cr=False, data="list", how="axes")
    add("paris_number", crack, ["data"], k=1, slopes=(3.0,), th=False,
        cr=False, data="number")
    add("unequal2", unequal, n=2)
    add("unequal3", unequal, n=3)
    return cs
