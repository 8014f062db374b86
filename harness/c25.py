"""C25: crack geometries."""
from engine.case import Case
from harness.warm import also

FUNCTIONS = ["geometry.InfiniteSurface", "geometry.Cylinder",
             "geometry.HollowCylinder", "geometry.cylinder.f_hol_cyl_01",
             "utils.to_numba_dict"]
ASSUMPTIONS = ["dimensions not within 1e-9 of a limit",
               "a model of pydantic's field validation order and types",
               "the geometry factor is decided for every wall thickness, at "
               "a grid of crack depths, radii and width to depth ratios"]


def invalid(ctx, label, make):
    from pydantic import ValidationError

    try:
        make()
    except ValidationError:
        ctx.check(label, True)
        return
    except ValueError as e:  # the model of pydantic raises its own class
        ctx.check(label, type(e).__name__ == "ValidationError")
        return
    ctx.check(label, False)


def num(ctx, name, lo=-100.0, hi=1000.0):
    x = ctx.real(name, lo=lo, hi=hi)
    ctx.assume(abs(x) >= 1e-9)
    return x


def surface(ctx):
    from py_fatigue.geometry import InfiniteSurface

    d = num(ctx, "d")
    if bool(d > 0):
        g = InfiniteSurface(initial_depth=d)
        ctx.eq("depth", g.initial_depth, d)
        ctx.check("id", g._id == "INF_SUR_00")
        ctx.reach("accepted")
    else:
        invalid(ctx, "depth", lambda: InfiniteSurface(initial_depth=d))
        ctx.reach("refused")
    invalid(ctx, "zero", lambda: InfiniteSurface(initial_depth=0.0))


def full(ctx):
    from py_fatigue.geometry import Cylinder

    d, x, h = num(ctx, "d"), num(ctx, "x"), num(ctx, "h")
    kw = dict(initial_depth=d, diameter=x, height=h)
    if bool(d > 0) and bool(x > 0) and bool(h > 0):
        g = Cylinder(**kw)
        ctx.eq("depth", g.initial_depth, d)
        ctx.eq("diameter", g.diameter, x)
        ctx.eq("height", g.height, h)
        ctx.check("id", g._id == "FUL_CYL_00")
        ctx.reach("accepted")
    else:
        invalid(ctx, "dimensions", lambda: Cylinder(**kw))
        ctx.reach("refused")


def tube(ctx, ratio=True):
    from py_fatigue.geometry import HollowCylinder

    d, x, t = num(ctx, "d"), num(ctx, "x"), num(ctx, "t")
    h = num(ctx, "h")
    ctx.assume(abs(t - d) >= 1e-9)
    ctx.assume(abs(t - x / 2) >= 1e-9)
    pos = ctx.choice("position", ["internal", "external", "outside", ""])
    kw = dict(initial_depth=d, outer_diameter=x, thickness=t, height=h,
              crack_position=pos)
    w = 2.0
    if ratio:
        w = num(ctx, "w")
        kw["width_to_depth_ratio"] = w
    ok = pos in ("internal", "external")
    for v in (d, x, t, h, w):
        ok = ok and bool(v > 0)
    ok = ok and bool(t < x / 2) and bool(d < t)
    if not ok:
        invalid(ctx, "dimensions", lambda: HollowCylinder(**kw))
        ctx.reach("refused")
        return
    g = HollowCylinder(**kw)
    for a, b in ((g.initial_depth, d), (g.outer_diameter, x),
                 (g.thickness, t), (g.height, h),
                 (g.width_to_depth_ratio, w)):
        ctx.eq("kept", a, b)
    ctx.check("position", g.crack_position == pos)
    ctx.check("id", g._id == ("HOL_CYL_00" if pos == "internal"
                              else "HOL_CYL_01"))
    ctx.reach("accepted")


def limits(ctx):
    """wall as thick as the radius, crack as deep as the wall"""
    from py_fatigue.geometry import HollowCylinder

    d = ctx.real("d", lo=0.5, hi=10)
    h = ctx.real("h", lo=1, hi=10)
    for kw in (dict(initial_depth=1.0, outer_diameter=64.0, thickness=32.0),
               dict(initial_depth=d, outer_diameter=64.0, thickness=d)):
        invalid(ctx, "limit", lambda: HollowCylinder(
            height=h, crack_position="external", **kw))
    ctx.reach("done")


def wall(ctx):
    """no factor once the crack is through"""
    from py_fatigue.geometry.cylinder import f_hol_cyl_01
    from py_fatigue.utils import to_numba_dict

    t = ctx.real("t", lo=0.5, hi=50)
    geo = to_numba_dict({
        "initial_depth": 0.1, "outer_diameter": ctx.real("x", lo=110, hi=900),
        "thickness": t, "height": 5.0,
        "width_to_depth_ratio": ctx.real("w", lo=0.1, hi=5)})
    e = ctx.real("e", lo=0, hi=100)
    ctx.eq("through", f_hol_cyl_01(t + e, geo), 0.0)
    ctx.reach("done")


def ratios(ctx, depth, dims, ratio):
    """scaling every dimension keeps the factor"""
    from py_fatigue.geometry.cylinder import f_hol_cyl_01
    from py_fatigue.utils import to_numba_dict

    k = ctx.pos("k", 0.1, 100.0)
    h = ctx.pos("h", 1.0, 1e3)
    d0 = ctx.pos("d0", 0.01, 0.5)

    def geo(k, h, d):
        return to_numba_dict({
            "initial_depth": d, "outer_diameter": dims[0] * k,
            "thickness": dims[1] * k, "height": h,
            "width_to_depth_ratio": ratio})

    one = f_hol_cyl_01(depth, geo(1.0, 100.0, 0.1))
    two = f_hol_cyl_01(depth * k, geo(k, h, d0))
    ctx.eq("same", two, one)
    ctx.reach("done")


def amplification(ctx, a, R, r, w):
    """stress at the reference point of the net section over the nominal
    stress of the tube; cracks for which an intermediate quantity is not
    positive are left out"""
    import numpy as np

    sin, cos = np.sin, np.cos

    def pos(x):
        ctx.assume(x > 0)
        return x

    def area(q, t):
        return pos(t - sin(2 * t) / 2) * q ** 2

    def centre(q, t):
        return 4 * q * sin(t) ** 3 / (3 * pos(2 * t - sin(2 * t)))

    def inertia(q, t):
        return q ** 4 / 4 * (t - sin(4 * t) / 4 - 16 * sin(t) ** 6 / (
            9 * pos(t - sin(t) * cos(t))))

    al = a * w / R
    cv = pos(R * sin(al))
    ah = pos(a - R * (1 - cos(al)))
    rc = pos((cv ** 2 + ah ** 2) / (2 * ah))
    ctx.assume(cv / rc <= 1)
    be = np.arcsin(cv / rc)
    ctx.assume(be > 0)
    ring = np.pi * (R ** 2 - r ** 2)
    a1, a2 = area(R, al), area(rc, be)
    net = pos(ring - a1 - a2)
    x1 = -centre(R, al)
    x2 = centre(rc, be) - R * cos(al) - rc * cos(be)
    q = -(a1 * x1 + a2 * x2) / net
    i0 = np.pi / 4 * (R ** 4 - r ** 4) + ring * q ** 2
    i1 = inertia(R, al) + a1 * (q - x1) ** 2
    i2 = inertia(rc, be) + a2 * (q - x2) ** 2
    inet = pos(i0 - i1 - i2)
    xa = -(R * cos(al) + q) + 0.1 * R * (1 + cos(al))
    return -np.pi * (R ** 4 - r ** 4) * xa / (4 * R * inet)


def factor(ctx, a, R, w):
    """the factor of a crack within the wall, for every wall thickness"""
    from py_fatigue.geometry.cylinder import f_hol_cyl_01
    from py_fatigue.utils import to_numba_dict

    t = ctx.pos("t", 1.05 * a, R / 3)
    want = amplification(ctx, a, R, R - t, w)
    got = f_hol_cyl_01(a, to_numba_dict({
        "initial_depth": 0.25, "outer_diameter": 2 * R, "thickness": t,
        "height": 100.0, "width_to_depth_ratio": w}))
    ctx.eq("factor", got, want)
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=("done",), **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())) or
            "dimensions -100..1000", **p))

    both = ("accepted", "refused")
    add("surface", surface, both)
    add("full", full, both)
    add("tube", tube, both)
    add("tube_default", tube, both, ratio=False)
    add("limits", limits)
    add("wall", wall)
    for a in (0.5, 2.0, 6.0) if not big else (0.25, 0.5, 1.0, 2.0, 4.0, 6.0):
        for R in (50.0, 120.0) if not big else (30.0, 50.0, 120.0, 400.0):
            for w in (0.8, 2.0) if not big else (0.5, 0.8, 1.0, 2.0, 3.0):
                add("factor_a%g_R%g_w%g" % (a, R, w), factor, a=a, R=R, w=w)
    grid = [(2.0, (200.0, 10.0), 2.0), (0.5, (60.0, 5.0), 1.0),
            (7.0, (400.0, 20.0), 1.5)]
    if big:
        grid += [(d, (x, t), w) for d in (0.25, 1.0, 4.5)
                 for x, t in ((50.0, 5.0), (300.0, 12.0))
                 for w in (0.5, 1.0, 2.0, 3.0)]
    for i, (d, x, w) in enumerate(grid):
        add("ratios%d" % i, ratios, depth=d, dims=x, ratio=w)
    return also(cs, "tube", "wall")
