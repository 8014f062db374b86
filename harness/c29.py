"""C29: equality of cycle counts and curves."""
from engine.case import Case
from harness.counts import stamp

FUNCTIONS = ["cycle_count.CycleCount.__eq__", "utils.compare",
             "material.SNCurve.__eq__", "material.ParisCurve.__eq__",
             "material.sn_curve._check_param_couple_types",
             "material.sn_curve._set_color"]
ASSUMPTIONS = ["curves are given a colour: without one each gets its own",
               "values are numbers (no NaN) and differ by at least 1e-3 "
               "when they differ"]


def both(ctx, label, a, b, want):
    ctx.check(label, bool(a == b) is want)
    ctx.check(label + ":swapped", bool(b == a) is want)
    ctx.check(label + ":ne", bool(a != b) is not want)


def near(ctx, x, y):
    """equal or clearly different; returns which"""
    if bool(x == y):
        return True
    ctx.assume(abs(x - y) >= 1e-3)
    return False


def build(ctx, v, form="array"):
    import numpy as np
    from py_fatigue.cycle_count import CycleCount

    def arr(x):
        return None if x is None else (
            list(x) if form == "list" else ctx.array(x) if len(x)
            else np.empty(0))

    return CycleCount(
        count_cycle=np.array(v["c"]) if form != "list" else list(v["c"]),
        stress_range=arr(v["r"]), mean_stress=arr(v["m"]),
        timestamp=stamp(v["h"]), unit=v["unit"],
        range_bin_lower_bound=v["lb"], range_bin_width=v["w"],
        _mean_bin_lower_bound=v["mlb"], mean_bin_width=v["mw"],
        nr_small_cycles=v["sm"],
        residuals_sequence=None if v["s"] is None else
        ctx.array(v["s"]) if len(v["s"]) else np.empty(0),
        lffd_solved=v["lffd"], mean_stress_corrected=v["msc"],
        stress_concentration_factor=v["scf"], name=v["name"])


def values(ctx, n, nres):
    return dict(
        c=[ctx.choice("c%d" % i, [0.5, 1.0, 2.0]) for i in range(n)],
        r=[ctx.real("r%d" % i, lo=0.01, hi=1e3) for i in range(n)],
        m=[ctx.real("m%d" % i, lo=-1e3, hi=1e3) for i in range(n)],
        s=[ctx.real("s%d" % i, lo=-1e3, hi=1e3) for i in range(nres)],
        h=ctx.choice("h", [0, 5]), unit="MPa",
        lb=ctx.real("lb", lo=0, hi=10), w=ctx.real("w", lo=0.01, hi=10),
        mlb=ctx.real("mlb", lo=-2000, hi=-1000),
        mw=ctx.real("mw", lo=0.01, hi=100), sm=ctx.whole("sm", 0, 100),
        lffd=False, msc="No", scf=ctx.real("scf", lo=0.1, hi=10), name="A")


SCALAR = ["lb", "w", "mlb", "mw", "scf"]
FIELDS = ["c", "r", "m", "s", "rows", "res", "nores", "h", "unit", "sm",
          "lffd", "msc", "name", "noname", "swap"] + SCALAR


def equal(ctx, n, nres, form):
    v = values(ctx, n, nres)
    a, b = build(ctx, v), build(ctx, v, form)
    both(ctx, "same", a, b, True)
    both(ctx, "self", a, a, True)
    if form == "array":
        both(ctx, "scaled", a * 2.0, b * 2, True)
    if nres > 2:
        ctx.assume(abs(v["s"][0] - v["s"][1]) >= 0.01)
        both(ctx, "resolved", a.solve_lffd(), b.solve_lffd(), True)
        both(ctx, "flag", a, b.solve_lffd(), False)
    ctx.reach("done")


def differ(ctx, n, nres, field):
    """one thing differs"""
    v = values(ctx, n, nres)
    u = {k: list(x) if isinstance(x, list) else x for k, x in v.items()}
    if field in ("c", "r", "m", "s"):
        i = ctx.choice("i", list(range(len(v[field]))))
        if field == "c":
            u["c"][i] = 1.5
        else:
            u[field][i] = ctx.real("new", lo=0.01, hi=1e3)
            if near(ctx, u[field][i], v[field][i]):
                both(ctx, "equal", build(ctx, v), build(ctx, u), True)
                ctx.reach("equal")
                return
    elif field == "swap":  # same cycles in another order
        u["r"].reverse()
        ctx.assume(abs(v["r"][0] - v["r"][-1]) >= 1e-3)
    elif field == "rows":
        for k, x in (("c", 1.0), ("r", ctx.real("xr", lo=0.01, hi=1e3)),
                     ("m", 0.0)):
            u[k].append(x)
    elif field == "res":
        u["s"].append(ctx.real("xs", lo=-1e3, hi=1e3))
    elif field == "nores":
        u["s"] = None
    elif field == "h":
        u["h"] = v["h"] + 1
    elif field == "unit":
        u["unit"] = ctx.choice("u", ["mpa", "MPa ", "kNm", ""])
    elif field == "sm":
        u["sm"] = v["sm"] + ctx.choice("more", [1, 7])
    elif field == "lffd":
        u["lffd"] = True
    elif field == "msc":
        u["msc"] = "SWT: {}"
    elif field == "name":
        u["name"] = ctx.choice("nm", ["a", "B", "AA", ""])
    elif field == "noname":
        u["name"] = None
    else:
        u[field] = ctx.real("new", lo=-2000, hi=2000)
        if field in ("w", "mw", "scf"):
            ctx.assume(u[field] >= 0.01)
        if field == "mlb":
            ctx.assume(u[field] <= -1000)
        if near(ctx, u[field], v[field]):
            both(ctx, "equal", build(ctx, v), build(ctx, u), True)
            ctx.reach("equal")
            return
    both(ctx, field, build(ctx, v), build(ctx, u), False)
    ctx.reach("different")


def foreign(ctx):
    import numpy as np

    cc = build(ctx, values(ctx, 1, 2))
    for x in (None, 0, 1.0, "x", [1], {}, {"a": 1}, np.array([1.0]), ()):
        ctx.check("other", bool(np.all(cc == x)) is False)
    d = dict(cc.__dict__)
    ctx.check("dict", bool(cc == d) is False)
    ctx.reach("done")


def curve(ctx, kind, k, field, form="list"):
    from py_fatigue.material import ParisCurve, SNCurve

    v = dict(slope=[3.0, 5.0, 7.0][:k],
             intercept=[ctx.real("a%d" % i, lo=1.0, hi=20.0)
                        for i in range(k)],
             norm="N", environment="E", curve="C", unit_string="MPa",
             color="#112233")
    if kind == "sn":
        for a, b in zip(v["intercept"], v["intercept"][1:]):
            ctx.assume(b >= a + 0.5)
        v["endurance"] = 1e30
        make = SNCurve
    else:
        v["threshold"] = ctx.real("th", lo=0.1, hi=1)
        v["critical"] = ctx.real("cr", lo=10, hi=1e3)
        v["unit_string"] = "MPa √mm"
        make = ParisCurve
    u = {q: list(x) if isinstance(x, list) else x for q, x in v.items()}
    want = False
    if field == "same":
        want = True
        if form == "array":
            for q in ("slope", "intercept"):
                u[q] = ctx.array(u[q])
        elif form == "number":
            for q in ("slope", "intercept"):
                u[q] = u[q][0]
    elif field in ("slope", "intercept"):
        i = ctx.choice("i", list(range(k)))
        u[field][i] = ctx.real("new", lo=1.0, hi=25.0)
        if field == "intercept" and kind == "sn":
            for a, b in zip(u["intercept"], u["intercept"][1:]):
                ctx.assume(b >= a + 0.5)
        if field == "slope":
            ctx.assume(u[field][i] >= v[field][i] - 0.5)
            ctx.assume(u[field][i] <= v[field][i] + 0.5)
        want = near(ctx, u[field][i], v[field][i])
    elif field == "length":
        u["slope"].append(9.0)
        u["intercept"].append(u["intercept"][-1] + 3.0)
    elif field == "endurance":
        u[field] = ctx.choice("e", [1e31, 1e40])
    elif field in ("threshold", "critical"):
        u[field] = ctx.real("new", lo=0.1 if field == "threshold" else 10,
                            hi=1 if field == "threshold" else 1e3)
        want = near(ctx, u[field], v[field])
    elif field == "unit_string":
        u[field] = "kPa" if kind == "sn" else "kPa √mm"
    else:
        u[field] = ctx.choice("x", ["other", "n"]) if field != "color" else \
            "#112234"
    a, b = make(**v), make(**u)
    both(ctx, field, a, b, want)
    if field == "same":
        both(ctx, "self", a, a, True)
        if kind == "sn":
            a.get_cycles(10.0)
            a.get_stress(1e5)
        else:
            try:
                a.get_growth_rate(5.0)
            except AssertionError:  # knees out of order
                pass
        both(ctx, "used", a, b, True)
        for x in (None, 0, "x", [3.0], dict(a.__dict__)):
            ctx.check("other", bool(a == x) is False)
    ctx.reach("equal" if want else "different")


def kinds(ctx):
    """an S-N curve is no Paris curve"""
    from py_fatigue.material import ParisCurve, SNCurve

    i = ctx.real("i", lo=1, hi=20)
    a = SNCurve([3.0], [i], color="#112233")
    b = ParisCurve([3.0], [i], color="#112233")
    both(ctx, "kind", a, b, False)
    ctx.reach("done")


def nested(ctx):
    """compare on nested containers"""
    from py_fatigue.utils import compare

    x = ctx.reals("x", 3, lo=-10, hi=10)
    y = ctx.reals("y", 3, lo=-10, hi=10)
    same = [near(ctx, p, q) for p, q in zip(x, y)]
    want = all(same)

    def shapes(v):
        return [list(v), tuple(v), ctx.array(v), {"a": v[0], "b": v[1:]},
                [[v[0]], {"k": ctx.array(v[1:])}], {"a": {"b": list(v)}}]

    for p, q in zip(shapes(x), shapes(y)):
        ctx.check("nested", bool(compare(p, q)) is want)
        ctx.check("nested:swapped", bool(compare(q, p)) is want)
    ctx.check("number", bool(compare(x[0], y[0])) is same[0])
    for p in shapes(x):
        for q in (None, 1.5, "x"):
            ctx.check("none", bool(compare(p, q)) is False)
            ctx.check("none", bool(compare(q, p)) is False)
    ctx.check("shorter", bool(compare(x, y[:2])) is False
              and bool(compare(ctx.array(x), ctx.array(y[:2]))) is False
              and bool(compare({"a": 1}, {"a": 1, "b": 2})) is False
              and bool(compare({"a": 1}, {"b": 1})) is False
              and bool(compare("ab", "ab")) is True
              and bool(compare("ab", "ac")) is False
              and bool(compare(None, None)) is True)
    ctx.reach("equal" if want else "different")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach, **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())) or "arbitrary values",
            **p))

    ed = ("equal", "different")
    for f in ("array", "list"):
        add("equal_" + f, equal, ("done",), n=2, nres=0, form=f)
    add("equal_res", equal, ("done",), n=1, nres=3, form="array")
    for f in FIELDS:
        add("differ_" + f, differ, ed if f in ("r", "m", "s") or f in SCALAR
            else ("different",), n=3 if big else 2, nres=3 if big else 2,
            field=f)
    add("foreign", foreign, ("done",))
    for kind, fs in (("sn", ["endurance"]), ("paris", ["threshold",
                                                      "critical"])):
        for k in (1, 2) if not big else (1, 2, 3):
            for form in ("list", "array") + (("number",) if k == 1 else ()):
                add("%s%d_same_%s" % (kind, k, form), curve, ("equal",),
                    kind=kind, k=k, field="same", form=form)
            for f in ["slope", "intercept", "length", "norm", "environment",
                      "curve", "unit_string", "color"] + fs:
                add("%s%d_%s" % (kind, k, f), curve, ed if f in (
                    "slope", "intercept", "threshold", "critical")
                    else ("different",), kind=kind, k=k, field=f)
    add("kinds", kinds, ("done",))
    add("nested", nested, ed)
    return cs
