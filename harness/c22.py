"""C22: mean stress correction of cycle counts."""
from engine.case import Case
from harness.counts import count, freeze, rows, same
from harness.warm import also

FUNCTIONS = ["cycle_count.CycleCount.mean_stress_correction",
             "cycle_count.CycleCount.solve_lffd",
             "mean_stress.corrections.dnvgl_mean_stress_correction",
             "mean_stress.corrections.walker_mean_stress_correction",
             "mean_stress.corrections.swt_mean_stress_correction"]
ASSUMPTIONS = ["warnings are not part of the claim",
               "resolution itself is decided in C12: the expected rows are "
               "the correction of the rows of the resolved count",
               "successive residuals differ",
               "maximum stress not within 1e-4 of zero; gamma from a grid"]
DNV = "DNVGL-RP-C203"
NAMES = {"dnvgl": [DNV, "dnvgl-rp-c203", "Dnvgl-RP-c203"],
         "walker": ["walker", "WALKER", "Walker"],
         "swt": ["swt", "SWT", "smith-watson-topper",
                 "Smith-Watson-Topper"]}
KEEP = ("ts", "unit", "rlb", "rw", "mlb", "mw", "small", "res", "scf", "name",
        "time")


def settings(ctx):
    return dict(
        unit="kNm", name="abc",
        nr_small_cycles=ctx.whole("small", 0, 50),
        range_bin_lower_bound=ctx.real("rlb", lo=0, hi=5),
        range_bin_width=ctx.real("rw", lo=0.1, hi=5),
        mean_bin_width=ctx.real("mw", lo=0.1, hi=5),
        stress_concentration_factor=ctx.real("scf", lo=0.5, hi=3),
    )


def expect(ctx, label, rule, par, got, want):
    """got: row after, want: row before correction"""
    r, m, c = want
    a = r / 2
    hi = m + a
    ctx.eq(label + ":count", got[2], c)
    if rule == "dnvgl":
        lo = m - a
        if bool(lo >= 0):
            e = r
        elif bool(hi > 0):
            e = hi - par * lo
        else:
            e = par * r if par == 0.8 else 0.0
        ctx.eq(label + ":range", got[0], e)
        ctx.eq(label + ":mean", got[1], e / 2)
        return
    ctx.eq(label + ":mean", got[1], 0.0)
    if bool(hi > 0):
        ctx.eq(label + ":range", ctx.log(got[0]),
               (1 - par) * ctx.log(hi) + par * ctx.log(a))
    else:
        ctx.eq(label + ":range", got[0], 0.0)


def kwargs(rule, par):
    if par is None or rule == "swt":
        return {}, (0.8 if rule == "dnvgl" else 0.5)
    return {"detail_factor" if rule == "dnvgl" else "gamma": par}, par


def correct(ctx, rule, n, par=None, solved=True, sets=False, nres=0,
            names=False, default=False, counts=(0.5, 1.0)):
    kw, p = kwargs(rule, par)
    k = settings(ctx) if sets else {}
    cc, _, _, _, res = count(ctx, n, counts=counts, nres=nres,
                             lffd_solved=solved, **k)
    for x, y in zip(res, res[1:]):
        ctx.assume(abs(x - y) >= 1e-3)
    for r, m, _ in rows(cc):
        ctx.assume(r >= 1e-3)
    for r, m, _ in rows(cc):
        ctx.assume(abs(m + r / 2) >= 1e-4)
        ctx.assume(abs(m) >= 1e-4)
    before = freeze(cc)
    base = cc if solved else cc.solve_lffd()
    if not solved:
        for r, m, _ in rows(base):
            ctx.assume(abs(m + r / 2) >= 1e-4)
        ctx.reach("resolved")
    nm = ctx.choice("type", NAMES[rule]) if names else NAMES[rule][0]
    out = (cc.mean_stress_correction(**kw) if default else
           cc.mean_stress_correction(correction_type=nm, **kw))
    got, want = rows(out), rows(base)
    ctx.check("n", len(got) == len(want))
    for g, w in zip(got, want):
        expect(ctx, "row", rule, p, g, w)
    pic, ref = freeze(out), freeze(base)
    same(ctx, "kept", {q: pic[q] for q in KEEP}, {q: ref[q] for q in KEEP})
    ctx.check("marked", out.mean_stress_corrected != "No")
    ctx.check("solved", bool(out.lffd_solved) == bool(base.lffd_solved))
    same(ctx, "original", before, freeze(cc))
    again = out.mean_stress_correction(correction_type=DNV,
                                       detail_factor=0.8)
    same(ctx, "again", pic, freeze(again))
    again = out.mean_stress_correction(correction_type="swt")
    same(ctx, "again", pic, freeze(again))
    ctx.reach("done")


def pulsating(ctx, rule, n, par=None):
    """all means zero: refused, or the means are the amplitudes"""
    import numpy as np
    from py_fatigue.cycle_count import CycleCount
    from harness.counts import stamp

    kw, p = kwargs(rule, par)
    r = [ctx.real("r%d" % i, lo=0.01, hi=1e3) for i in range(n)]
    c = [ctx.choice("c%d" % i, (0.5, 1.0)) for i in range(n)]
    cc = CycleCount(count_cycle=np.array(c), stress_range=ctx.array(r),
                    mean_stress=np.zeros(n), timestamp=stamp(0),
                    _mean_bin_lower_bound=-10.0, lffd_solved=True)
    before = freeze(cc)
    ctx.raises("refused", ValueError, lambda: cc.mean_stress_correction(
        correction_type=NAMES[rule][0], **kw))
    out = cc.mean_stress_correction(correction_type=NAMES[rule][0],
                                    enforce_pulsating_load=True, **kw)
    got = rows(out)
    ctx.check("n", len(got) == n)
    for g, x, y in zip(got, r, c):
        expect(ctx, "row", rule, p, g, (x, x / 2, y))
    same(ctx, "original", before, freeze(cc))
    ctx.reach("done")


def flag(ctx, rule, n):
    """the pulsating flag changes nothing when some mean is not zero"""
    kw, p = kwargs(rule, 0.8 if rule == "dnvgl" else 0.5)
    cc = count(ctx, n, counts=(1.0,), lffd_solved=True)[0]
    ms = [m for _, m, _ in rows(cc)]
    for r, m, _ in rows(cc):
        ctx.assume(abs(m + r / 2) >= 1e-4)
    zero = [bool(m == 0) for m in ms]
    if all(zero):
        ctx.reach("zero")
        return
    ctx.assume(ctx.either(*[abs(m) >= 1e-4 for m in ms]))
    out = cc.mean_stress_correction(correction_type=NAMES[rule][0],
                                    enforce_pulsating_load=True, **kw)
    for g, w in zip(rows(out), rows(cc)):
        expect(ctx, "row", rule, p, g, w)
    ctx.reach("done")


def bad(ctx, n):
    cc = count(ctx, n, counts=(1.0,), lffd_solved=True)[0]
    before = freeze(cc)
    for t in ("goodman", "", "dnvgl", "dnv", "walkers", "no"):
        for f in (False, True):
            ctx.raises("type " + t, ValueError,
                       lambda: cc.mean_stress_correction(
                           correction_type=t, enforce_pulsating_load=f))
    same(ctx, "original", before, freeze(cc))
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=("done",), **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    pars = {"dnvgl": (None, 0.8, 0.6), "walker": (None, 0.5, 0.7),
            "swt": (None,)}
    for r in ("dnvgl", "walker", "swt"):
        for p in pars[r]:
            nm = r if p is None else "%s_%d" % (r, round(10 * p))
            add("one_" + nm, correct, rule=r, n=1, par=p)
            add("two_" + nm, correct, rule=r, n=2, par=p, counts=(0.5, 3.0))
            add("pulse_" + nm, pulsating, rule=r, n=2, par=p)
            if big:
                add("three_" + nm, correct, rule=r, n=3, par=p)
                add("pulse3_" + nm, pulsating, rule=r, n=3, par=p)
        add("many_" + r, correct, rule=r, n=300)
        add("sets_" + r, correct, rule=r, n=1, sets=True)
        add("names_" + r, correct, rule=r, n=1, names=True)
        add("lffd_" + r, correct, ("done", "resolved"), rule=r, n=1,
            solved=False, nres=3, counts=(1.0,))
        add("flag_" + r, flag, ("done", "zero"), rule=r, n=2)
        if big:
            add("lffd4_" + r, correct, ("done", "resolved"), rule=r, n=1,
                solved=False, nres=4, counts=(1.0,))
    for g in (0.0, 1.0):
        add("pulse_walker_%d" % g, pulsating, rule="walker", n=2, par=g)
    add("default", correct, rule="dnvgl", n=1, default=True)
    add("bad", bad, n=2)
    return also(cs, "one_dnvgl", "one_swt")
