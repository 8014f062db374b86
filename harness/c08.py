"""C08: the damage tolerance when binning."""
from engine.case import Case
from harness.counts import count
from harness.warm import also

FUNCTIONS = ["cycle_count.CycleCount.as_dict", "histogram.rainflow_binner",
             "histogram.rainflow_threshold", "histogram._build_binned_dict",
             "utils.FatigueStress"]
ASSUMPTIONS = ["cycles at least 1e-3 away from the class limits (there the "
               "class is a matter of rounding)"]
RND = 1.2e-4  # values are exported with 4 decimals
GRID = {"def": (0.2, 0.05, -10.0, 10.0), "unit": (0.5, 1.0, -5.0, 10.0),
        "odd": (0.3, 0.7, -1.5, 3.0), "big": (2.1, 2.5, -30.1, 10.0)}


def cls(v, lb, w, k):
    for i in range(k):
        if bool(v <= lb + (i + 1) * w):
            return i
    return k - 1


def away(ctx, v, lb, w, k):
    for i in range(k + 1):
        ctx.assume(abs(v - (lb + i * w)) >= 1e-3)


def split(ctx, n, s="unit", k=3, km=1, tol=None, exponent=1.0, zeros=32,
          legacy=False, counts=(1.0,), means=None):
    lb, w, mlb, mw = GRID[s]
    cc, c, r, m, _ = count(ctx, n, counts=counts, lo=lb, hi=lb + k * w,
                           means=means, range_bin_lower_bound=lb, range_bin_width=w,
                           _mean_bin_lower_bound=mlb, mean_bin_width=mw)
    if n > 20:
        ctx.assume(abs(r[-1] - (lb + 3.2 * w)) <= 0.3 * w)
        ctx.assume(m[-1] >= mlb + 1.5 * mw)
    for i in range(n):
        away(ctx, r[i], lb, w, k)
        if means is None:
            ctx.assume(m[i] >= mlb)
            ctx.assume(m[i] <= mlb + km * mw)
        if not legacy and means is None:
            away(ctx, m[i], mlb, mw, km)
    if tol is None:
        tol = ctx.real("tol", lo=0.0, hi=1.0)
    d = cc.as_dict(damage_tolerance_for_binning=tol,
                   damage_exponent=exponent, max_consecutive_zeros=zeros,
                   legacy_export=legacy)
    full = []
    for i in range(n):
        full += [i] * int(c[i])
    if not full:
        ctx.check("nothing", len(d["lg_c"]) == 0)
        return
    rc = {i: cls(r[i], lb, w, k) for i in set(full)}
    mc = {i: 0 if legacy else cls(m[i], mlb, mw, km) for i in set(full)}
    top = r[full[0]]
    for i in full[1:]:
        if bool(r[i] > top):
            top = r[i]
    order = sorted(full, key=lambda i: (mc[i], rc[i]))
    last = rc[order[0]]
    keep, hist = [], {}
    for i in order:
        ref = r[i] ** exponent
        app = (lb + (rc[i] + 0.5) * w) ** exponent
        # not within rounding of either threshold
        if r[i] is not top:
            ctx.assume(abs(ref - tol * top ** exponent)
                       >= 1e-6 * top ** exponent)
        ctx.assume(abs(abs(ref - app) - tol * ref) >= 1e-6 * ref)
        share = bool(ref / top ** exponent > tol)
        moved = share and bool(abs(ref - app) / ref > tol)
        if moved:
            ctx.reach("kept")
        gap = rc[i] - last > zeros
        if gap:
            ctx.reach("gap")
        if moved or gap:
            keep.append((0.0 if legacy else m[i], r[i]))
            continue
        q = (mc[i], rc[i])
        hist[q] = hist.get(q, 0) + 1
        last = rc[i]
        ctx.reach("binned")
    if legacy:
        got = {(0, j): int(v) for j, v in enumerate(d["hist"]) if v}
        lg = [(0.0, v) for v in d["lg_c"]]
    else:
        got = {(a, j): int(v) for a, hh in enumerate(d["hist"])
               for j, v in enumerate(hh) if v}
        lg = [tuple(v) for v in d["lg_c"]]
    ctx.check("hist", got == hist)
    ctx.check("n", len(lg) == len(keep))
    ctx.matching("large", lg, keep, abs_=RND, rel=0.0)


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, reach=("kept", "binned"), **p):
        cs.append(Case(name, split, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    add("one1", n=1)
    add("lin2", n=2, k=2)
    add("lin2o", n=2, s="odd", k=2, tol=0.05)
    add("def2", n=2, s="def", k=2, tol=0.02)
    add("lin2m", n=2, km=2, k=2, tol=0.1)
    add("lin2c", n=2, k=2, tol=0.1, counts=(0.5, 1.0, 2.0))
    add("legacy2", n=2, k=2, tol=0.1, legacy=True)
    add("pow2", n=2, k=2, exponent=2.0, tol=0.1)
    add("pow3", n=2, k=2, exponent=3.0, tol=0.1, s="odd")
    add("pow5", n=2, k=2, exponent=5.0, tol=0.001)
    add("gap2", n=2, k=4, zeros=1, tol=1.0, reach=("gap", "binned"))
    add("gap2t", n=2, k=3, zeros=1, tol=0.4, reach=("gap", "kept"))
    add("gap3", n=3, k=3, zeros=1, tol=1.0, reach=("gap", "binned"))
    add("gap2m", n=2, k=3, km=2, zeros=0, tol=1.0, reach=("gap", "binned"))
    add("gap3m", n=3, k=3, km=2, zeros=0, tol=1.0, means=(-3.0, -2.0, 7.0),
        reach=("gap", "binned"))
    add("gap3k", n=3, k=3, km=2, zeros=1, tol=1.0, means=(-3.0, 6.0, 7.0),
        reach=("gap", "binned"))
    add("gapleg2", n=2, k=3, zeros=1, tol=1.0, legacy=True,
        reach=("gap", "binned"))
    add("many", n=300, s="big", k=10, km=2, tol=0.051, counts=(1.0, 0.5))
    if big:
        add("lin3", n=3, k=2, tol=0.1)
        add("gap3s", n=3, k=3, km=2, zeros=1, tol=1.0,
            reach=("gap", "binned"))
        add("gap4", n=4, k=3, zeros=1, tol=1.0, reach=("gap", "binned"))
        add("pow3t", n=2, k=2, exponent=3.0)
        add("pow5k", n=2, k=4, exponent=5.0, tol=0.01)
        add("gapk6", n=2, k=6, zeros=3, tol=1.0, reach=("gap", "binned"))
    return also(cs, "one1")
