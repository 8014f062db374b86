"""C07: export and re-import of cycle counts."""
from engine.case import Case
from harness.counts import count, freeze, rows, same, stamp
from harness.signals import signal
from harness.warm import also

FUNCTIONS = ["cycle_count.CycleCount.as_dict",
             "cycle_count.CycleCount.from_rainflow",
             "cycle_count._build_input_data_from_json",
             "cycle_count._assess_json_keys", "histogram.rainflow_binner",
             "histogram.rainflow_threshold", "histogram.binned_rainflow",
             "histogram._build_binned_dict", "utils.FatigueStress"]
ASSUMPTIONS = ["mean stresses at or above the lower mean bound (the default "
               "bound always is)", "counts of at least one cycle above the "
               "lower range bound", "class by class counts are compared for "
               "cycles at least 1e-3 away from the class limits"]
RND = 6e-5 * 2  # values are exported with 4 decimals

GRID = {"def": (0.2, 0.05, -10.0, 10.0), "unit": (0.0, 1.0, -5.0, 10.0),
        "odd": (0.3, 0.7, -1.5, 3.0), "wide": (5.0, 12.5, -20.0, 40.0),
        "big": (4.1, 2.5, -30.1, 10.0)}


def setting(ctx, s):
    if s == "lb":
        return ctx.real("lb", lo=0, hi=5), 0.75, -10.0, 10.0
    return GRID[s]


def klass(ctx, v, lb, w, k):
    """index of the class holding v (away from the limits)"""
    for i in range(k):
        if bool(v <= lb + (i + 1) * w):
            return i
    return k - 1


def away(ctx, v, lb, w, k):
    for i in range(k + 1):
        ctx.assume(abs(v - (lb + i * w)) >= 1e-3)


def roundtrip(ctx, n, s, k=3, tol=1.0, exponent=1.0, zeros=32, legacy=False,
              counts=(0.5, 1.0, 2.0), nres=0, classes=False, below=True,
              km=2, decimals=None):
    from py_fatigue.cycle_count import CycleCount

    lb, w, mlb, mw = setting(ctx, s)
    RND = 1.2 * 10.0 ** -(4 if decimals is None else decimals)
    small = ctx.whole("small", 0, 50)
    cc, c, r, m, res = count(
        ctx, n, counts=counts, nres=nres, hours=5, lo=0.0, hi=100.0,
        range_bin_lower_bound=lb, range_bin_width=w,
        _mean_bin_lower_bound=mlb, mean_bin_width=mw, nr_small_cycles=small,
        unit="kNm")
    if n > 20:
        ctx.assume(abs(r[-1] - (lb + 3.2 * w)) <= 0.3 * w)
        ctx.assume(m[-1] >= mlb + 1.5 * mw)
    big = []
    for i in range(n):
        ctx.assume(r[i] <= lb + k * w)
        ctx.assume(m[i] >= mlb)
        ctx.assume(m[i] <= mlb + km * mw)
        if not below:
            ctx.assume(r[i] >= lb)
        if bool(r[i] >= lb):
            big.append(i)
            if classes:
                away(ctx, r[i], lb, w, k)
                away(ctx, m[i], mlb, mw, km)
    if not big:
        return
    f = freeze(cc)
    kw = {} if decimals is None else dict(round_decimals=decimals)
    d = cc.as_dict(damage_tolerance_for_binning=tol,
                   damage_exponent=exponent, max_consecutive_zeros=zeros,
                   legacy_export=legacy, **kw)
    same(ctx, "orig", freeze(cc), f)
    ctx.eq("small", d["nr_small_cycles"], small + (n - len(big)))
    if len(big) < n:
        ctx.reach("small")
    hist = d["hist"]
    lgc = list(d["lg_c"])
    if classes:
        got = {}
        if legacy:
            for j, v in enumerate(hist):
                if v:
                    got[0, j] = got.get((0, j), 0) + v
            for v in lgc:
                j = klass(ctx, v, lb, w, k)
                got[0, j] = got.get((0, j), 0) + 1
        else:
            for i, hh in enumerate(hist):
                for j, v in enumerate(hh):
                    if v:
                        got[i, j] = got.get((i, j), 0) + v
            for a, b in lgc:
                j = klass(ctx, b, lb, w, k)
                i = klass(ctx, a, mlb, mw, km)
                got[i, j] = got.get((i, j), 0) + 1
        exp = {}
        for i in big:
            q = (0 if legacy else klass(ctx, m[i], mlb, mw, km),
                 klass(ctx, r[i], lb, w, k))
            if int(c[i]):
                exp[q] = exp.get(q, 0) + int(c[i])
        ctx.check("classes", {q: float(v) for q, v in got.items()}
                  == {q: float(v) for q, v in exp.items()})
    back = CycleCount.from_rainflow(d, timestamp=stamp(5), unit="kNm",
                                    name="n")
    g = freeze(back)
    for q in ("rlb", "rw") + (() if legacy else ("mlb", "mw")):
        ctx.eq("kept:" + q, g[q], f[q])
    ctx.eq("kept:small", g["small"], small + (n - len(big)))
    ctx.check("kept", g["ts"] == f["ts"] and g["unit"] == "kNm"
              and g["name"] == "n" and not g["lffd"] and g["msc"] == "No")
    ctx.check("res:n", len(g["res"]) == nres)
    for a, b in zip(g["res"], res):
        ctx.eq("res", a, b, abs_=RND, rel=0)
    # cycles
    halves = [(r[i], m[i]) for i in big if c[i] - int(c[i]) == 0.5]
    full = []
    for i in big:
        full += [(r[i], m[i])] * int(c[i])
    h2, f2 = [], []
    for a, b, q in g["rows"]:
        if q == 0.5:
            h2.append((a, b))
        else:
            ctx.check("count", float(q) == int(q) and q > 0)
            f2 += [(a, b)] * int(q)
    ctx.check("half:n", len(h2) == len(halves))
    for (a, b), (p, q) in zip(h2, halves):
        ctx.eq("half:range", a, p, abs_=RND, rel=0)
        ctx.eq("half:mean", b, 0.0 if legacy else q, abs_=RND, rel=0)
    ctx.check("full:n", len(f2) == len(full))
    if len(f2) == len(full) and full:
        pairs(ctx, "full", f2, full, w, mw, legacy, RND)
        ctx.reach("full")
    if len(lgc):
        ctx.reach("large")


def pairs(ctx, label, got, exp, w, mw, legacy, RND=RND):
    """every original full cycle has a partner at most half a bin away"""
    import itertools

    uniq = []
    for e in exp:
        if not any(e[0] is u[0] and e[1] is u[1] for u in uniq):
            uniq.append(e)

    def near(a, b):
        cs = [abs(a[0] - b[0]) <= w / 2 + RND]
        if legacy:
            cs.append(ctx.close(a[1], 0.0))
        else:
            cs.append(abs(a[1] - b[1]) <= mw / 2 + RND)
        return ctx.both(*cs)

    if len(got) <= 3:
        ctx.holds(label, *[
            ctx.both(*[near(a, b) for a, b in zip(p, exp)])
            for p in itertools.permutations(got)])
    else:
        for e in uniq:
            ctx.holds(label, *[near(a, e) for a in got])
        for a in got:
            ctx.holds(label, *[near(a, e) for e in uniq])


def series(ctx, fam, n, time=False, s="unit", k=4):
    """binned_rainflow of a signal, read back"""
    from py_fatigue.cycle_count import CycleCount
    from py_fatigue.cycle_count.histogram import binned_rainflow

    lb, w, mlb, mw = GRID[s]
    x = signal(ctx, fam, n)
    ctx.assume(abs(x[1] - x[0]) >= 0.01)
    for v in x:
        ctx.assume(v >= 0)
        ctx.assume(v <= k * w)
    kw = dict(range_bin_lower_bound=lb, range_bin_width=w,
              mean_bin_lower_bound=mlb, mean_bin_width=mw,
              damage_tolerance_for_binning=1.0)
    if time:
        kw["time"] = ctx.array([0.5 * i for i in range(n)])
    cc = CycleCount.from_timeseries(ctx.array(x), mean_bin_lower_bound=mlb)
    keep = [q for q in rows(cc) if bool(q[0] >= lb)]
    if not keep:
        return
    d = binned_rainflow(ctx.array(x), **kw)
    ctx.eq("small", d["nr_small_cycles"], len(rows(cc)) - len(keep))
    if time:
        ctx.eq("duration", d["as_dur"], 0.5 * (n - 1))
    back = CycleCount.from_rainflow(d)
    ctx.eq_list("res", list(back.residuals_sequence),
                list(cc.residuals_sequence))
    full = [(a, b) for a, b, q in keep if q == 1.0]
    half = [(a, b) for a, b, q in keep if q == 0.5]
    f2, h2 = [], []
    for a, b, q in rows(back):
        if q == 0.5:
            h2.append((a, b))
        else:
            f2 += [(a, b)] * int(q)
    ctx.check("half:n", len(h2) == len(half))
    for (a, b), (p, q) in zip(h2, half):
        ctx.eq("half:range", a, p, abs_=RND, rel=0)
        ctx.eq("half:mean", b, q, abs_=RND, rel=0)
    ctx.check("full:n", len(f2) == len(full))
    if full:
        pairs(ctx, "full", f2, full, w, mw, False)
        ctx.reach("full")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=("full",), **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    for s in ("def", "unit", "odd", "lb"):
        add("rt1_" + s, roundtrip, n=1, s=s, nres=2)
    for s in ("def", "odd"):
        few = dict(counts=(0.5, 1.0) if s == "def" else (1.0, 2.0),
                   km=1 if s == "def" else 2)
        add("rt2_" + s, roundtrip, n=2, s=s, reach=("full", "small"),
            **(dict(k=3) if big else dict(k=2, **few)))
        if big or s == "odd":
            add("lg2_" + s, roundtrip, n=2, s=s, tol=0.0, k=2,
                reach=("full", "large"), below=False, km=2 if big else 1,
                counts=(0.5, 1.0, 2.0) if big else (1.0,))
        add("legacy2_" + s, roundtrip, n=2, s=s, legacy=True, k=2,
            reach=("full", "small"), **({} if big else few))
    add("cls1", roundtrip, n=1, s="def", classes=True)
    add("cls2", roundtrip, n=2, s="unit", classes=True, k=2, below=False,
        counts=(1.0, 2.0))
    add("clslg2", roundtrip, n=2, s="unit", classes=True, k=2, tol=0.0,
        below=False, km=2 if big else 1, counts=(1.0,), reach=("full", "large"))
    add("clslegacy2", roundtrip, n=2, s="unit", classes=True, k=2,
        legacy=True, below=False, counts=(1.0, 2.0))
    add("lglegacy2", roundtrip, n=2, s="unit", k=2, tol=0.0, legacy=True,
        below=False, counts=(0.5, 1.0), reach=("full", "large"))
    add("gap2", roundtrip, n=2, s="unit", k=4, zeros=1, counts=(1.0,),
        below=False, km=1, reach=("full", "large"))
    add("half2", roundtrip, n=2, s="def", counts=(0.5,), reach=())
    add("res1", roundtrip, n=1, s="def", nres=3, legacy=True)
    for leg in (False, True):
        add("rows300" + "_leg" * leg, roundtrip, n=300, s="big", k=10,
            counts=(1.0, 0.5), classes=True, legacy=leg)
    add("many1", roundtrip, n=1, s="unit", counts=(1.5, 3.0, 12.0))
    add("dec1", roundtrip, n=1, s="unit", decimals=6, nres=2)
    add("dec1lg", roundtrip, n=1, s="unit", decimals=6, tol=0.0, nres=2,
        below=False, reach=("full", "large"))
    add("dec1leg", roundtrip, n=1, s="unit", decimals=6, tol=0.0, nres=2,
        legacy=True, below=False, reach=("full", "large"))
    add("dec1low", roundtrip, n=1, s="unit", decimals=1, tol=0.0, nres=2,
        below=False, reach=("full", "large"))
    add("ts4", series, fam="raw", n=4, k=2)
    add("ts4t", series, fam="raw", n=4, time=True, s="wide", k=2)
    if big:
        add("rt3_unit", roundtrip, n=3, s="unit", k=2)
        add("rt3_lg", roundtrip, n=3, s="unit", k=2, tol=0.0, below=False,
            reach=("full", "large"))
        add("cls3", roundtrip, n=3, s="unit", classes=True, k=2, below=False,
            counts=(1.0,))
        add("legacy3", roundtrip, n=3, s="unit", k=2, legacy=True)
        add("rt2_lb", roundtrip, n=2, s="lb", k=3)
        add("ts5", series, fam="alt", n=5, k=2)
        add("k8", roundtrip, n=2, s="def", k=8, counts=(1.0,), km=1)
    return also(cs, "rt1_def")
