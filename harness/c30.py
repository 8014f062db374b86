"""C30: stored cycle counts are read back."""
from engine.case import Case
from harness.counts import freeze, stamp
from harness.warm import also

FUNCTIONS = ["cycle_count.CycleCount.from_rainflow",
             "cycle_count._build_input_data_from_json",
             "cycle_count._assess_json_keys"]
ASSUMPTIONS = ["class centres are compared up to their documented rounding",
               "histogram entries that are not zero are at least 1e-3"]


def entry(ctx, name, zero=True):
    v = ctx.real(name, lo=0 if zero else 1e-3, hi=1e6)
    if zero:
        if bool(v == 0):
            ctx.reach("zero")
            return v, False
        ctx.assume(v >= 1e-3)
    return v, True


def settings(ctx, sym, means):
    if sym:
        lb, w = ctx.real("lb", lo=0, hi=10), ctx.real("w", lo=0.01, hi=20)
        mlb = ctx.real("mlb", lo=-100, hi=100)
        mw = ctx.real("mw", lo=0.01, hi=50)
    else:
        lb, w, mlb, mw = 0.2, 0.05, -17.5, 10.0
    return lb, w, mlb, mw


def keys(ctx, d, lb, w, small, old):
    d["bin_lb" if old else "range_bin_lower_bound"] = lb
    d["bin_width" if old else "range_bin_width"] = w
    d["no_sm_c" if old else "nr_small_cycles"] = small


def read(ctx, shape, nlg, nres, sym, nsig=0, old=None, means=True, dec=None,
         extra=True, nohist=False):
    """shape: number of range classes per mean class, or an int (legacy)"""
    from py_fatigue.cycle_count import CycleCount

    lb, w, mlb, mw = settings(ctx, sym, means)
    small = ctx.whole("sm", 0, 1000)
    tol = 0.6 * 10.0 ** -(4 if dec is None else dec)
    exp, d = [], {}
    if means:
        hist = []
        for i, k in enumerate(shape):
            row = []
            for j in range(k):
                v, there = entry(ctx, "h%d_%d" % (i, j))
                row.append(v)
                if there:
                    exp.append((lb + (j + 0.5) * w, mlb + (i + 0.5) * mw, v))
            hist.append(row)
        lg = [[ctx.real("lm%d" % i, lo=-500, hi=500),
               ctx.real("lr%d" % i, lo=0.01, hi=500)] for i in range(nlg)]
        res = [[ctx.real("rm%d" % i, lo=-500, hi=500),
                ctx.real("rr%d" % i, lo=0.01, hi=500)] for i in range(nres)]
        exp += [(r, m, 1.0) for m, r in lg] + [(r, m, 0.5) for m, r in res]
        d["mean_bin_lower_bound"], d["mean_bin_width"] = mlb, mw
    else:
        hist = []
        for j in range(shape):
            v, there = entry(ctx, "h%d" % j)
            hist.append(v)
            if there:
                exp.append((lb + (j + 0.5) * w, 0.0, v))
        lg = [ctx.real("lr%d" % i, lo=0.01, hi=500) for i in range(nlg)]
        res = [ctx.real("rr%d" % i, lo=0.01, hi=500) for i in range(nres)]
        exp += [(r, 0.0, 1.0) for r in lg] + [(r, 0.0, 0.5) for r in res]
    if not exp:
        ctx.assume(False)
    o = ctx.bool("old") if old is None else old
    keys(ctx, d, lb, w, small, o)
    if not nohist:
        d["hist"] = hist
    d["lg_c"], d["res"] = lg, res
    sig = ctx.reals("g", nsig, lo=-500, hi=500)
    if nsig:
        d["res_sig"] = list(sig)
    if extra and ctx.bool("dur"):
        d["as_dur"] = 600.0
    kw = {} if dec is None else {"round_decimals": dec}
    cc = CycleCount.from_rainflow(
        d, timestamp=stamp(3), name="nm", unit="kNm", lffd_solved=True,
        mean_stress_corrected="yes", **kw)
    f = freeze(cc)
    ctx.check("n", len(f["rows"]) == len(exp))
    # rows may come in any order, classes are told apart by the tolerance
    for k, (g, e) in enumerate(zip(order(ctx, f["rows"], exp, tol), exp)):
        ctx.eq("range", g[0], e[0], abs_=tol)
        ctx.eq("mean", g[1], e[1], abs_=tol)
        ctx.eq("count", g[2], e[2])
    ctx.eq("lb", f["rlb"], lb)
    ctx.eq("w", f["rw"], w)
    ctx.eq("small", f["small"], small)
    if means:
        ctx.eq("mlb", f["mlb"], mlb)
        ctx.eq("mw", f["mw"], mw)
    if nsig:
        ctx.eq_list("signal", f["res"], sig)
    ctx.check("set", f["ts"] == stamp(3) and f["name"] == "nm"
              and f["unit"] == "kNm" and f["lffd"] is True
              and f["msc"] == "yes")
    ctx.reach("done")


def order(ctx, got, exp, tol):
    """got in the order of exp when it is not already"""
    def close(g, e):
        return ctx.both(ctx.close(g[0], e[0], abs_=tol),
                        ctx.close(g[1], e[1], abs_=tol),
                        ctx.close(g[2], e[2]))

    if all(bool(close(g, e)) for g, e in zip(got, exp)):
        return got
    left, out = list(got), []
    for e in exp:
        for i, g in enumerate(left):
            if bool(close(g, e)):
                out.append(left.pop(i))
                break
        else:
            return got
    return out


def names(ctx, means):
    """old and new key names give the same count"""
    from py_fatigue.cycle_count import CycleCount

    lb, w, mlb, mw = settings(ctx, True, means)
    small = ctx.whole("sm", 0, 1000)
    h = [ctx.real("h%d" % i, lo=1, hi=100) for i in range(3)]
    lr, rr = ctx.real("lr", lo=0.01, hi=50), ctx.real("rr", lo=0.01, hi=50)
    pics = []
    for old in (False, True):
        d = {"hist": [h[:2], h[2:]] if means else list(h),
             "lg_c": [[1.0, lr]] if means else [lr],
             "res": [[2.0, rr]] if means else [rr]}
        if means:
            d["mean_bin_lower_bound"], d["mean_bin_width"] = mlb, mw
        keys(ctx, d, lb, w, small, old)
        cc = CycleCount.from_rainflow(d, timestamp=stamp(0))
        pics.append((cc, freeze(cc)))
    ctx.check("equal", bool(pics[0][0] == pics[1][0]))
    for a, b in zip(pics[0][1]["rows"], pics[1][1]["rows"]):
        for x, y in zip(a, b):
            ctx.eq("rows", x, y)
    ctx.reach("done")


def refused(ctx, means):
    from py_fatigue.cycle_count import CycleCount

    h = [ctx.real("h%d" % i, lo=1, hi=100) for i in range(2)]

    def base():
        d = {"range_bin_lower_bound": 0.2, "range_bin_width": 0.5,
             "hist": [list(h)] if means else list(h), "lg_c": [], "res": [],
             "nr_small_cycles": 3}
        if means:
            d["mean_bin_lower_bound"], d["mean_bin_width"] = 0.0, 10.0
        return d

    def load(d):
        return CycleCount.from_rainflow(d, timestamp=stamp(0))

    load(base())
    bad = ctx.choice("bad", ["x", "Hist", "bin_ub", "range_bin_upper_bound",
                             "", "lgc", "residuals"])
    d = base()
    d[bad] = ctx.choice("val", [1.0, None])
    ctx.raises("unknown", KeyError, load, d)
    d = base()
    d["bin_lb"] = 0.2
    ctx.raises("both", KeyError, load, d)
    d["bin_width"] = 0.5
    ctx.raises("both", KeyError, load, d)
    d = base()
    d["hist"] = []
    ctx.raises("empty", ValueError, load, d)
    d = base()
    del d["hist"]
    ctx.raises("empty", ValueError, load, d)
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=("done",), **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items(), key=str)), **p))

    z = ("done", "zero")
    for nm, sym in (("fixed", False), ("any", True)):
        add("means_" + nm, read, z, shape=[2, 1], nlg=1, nres=1, sym=sym)
        add("means_hole_" + nm, read, z, shape=[0, 2], nlg=1, nres=0,
            sym=sym)
        add("means_tail_" + nm, read, z, shape=[1, 0, 1], nlg=0, nres=2,
            sym=sym, nsig=3)
        add("legacy_" + nm, read, z, shape=3, nlg=1, nres=1, sym=sym,
            means=False)
        add("legacy_res_" + nm, read, z, shape=2, nlg=0, nres=2, sym=sym,
            means=False, nsig=3)
        add("means_dec_" + nm, read, z, shape=[2], nlg=0, nres=1, sym=sym,
            dec=2)
        add("legacy_dec_" + nm, read, z, shape=2, nlg=1, nres=0, sym=sym,
            means=False, dec=1)
    add("means_nohist", read, shape=[], nlg=2, nres=1, sym=True)
    add("means_missing", read, shape=[], nlg=1, nres=2, sym=True,
        nohist=True)
    add("legacy_missing", read, shape=0, nlg=1, nres=2, sym=True,
        means=False, nohist=True)
    add("means_only_lg", read, shape=[], nlg=2, nres=0, sym=True, nsig=2)
    add("legacy_only_lg", read, shape=0, nlg=2, nres=0, sym=True,
        means=False)
    add("legacy_only_res", read, shape=0, nlg=0, nres=2, sym=True,
        means=False)
    add("means_only_hist", read, z, shape=[2, 1], nlg=0, nres=0, sym=True)
    add("means_only_res", read, shape=[], nlg=0, nres=2, sym=True, nsig=3)
    add("names_means", names, means=True)
    add("names_legacy", names, means=False)
    add("refused_means", refused, means=True)
    add("refused_legacy", refused, means=False)
    if big:
        for nm, sym in (("fixed", False), ("any", True)):
            add("means3_" + nm, read, z, shape=[3, 2, 1], nlg=2, nres=2,
                sym=sym, nsig=3)
            add("legacy6_" + nm, read, z, shape=6, nlg=2, nres=2, sym=sym,
                means=False, nsig=3)
            add("means_gap_" + nm, read, z, shape=[0, 3, 0, 2], nlg=1,
                nres=3, sym=sym)
    return also(cs, "means_fixed", "legacy_fixed")
