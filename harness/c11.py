"""C11: addition of cycle counts."""
from engine.case import Case
from harness.counts import count, freeze, rows, same, same_rows, stamp
from harness.warm import also

FUNCTIONS = ["cycle_count.CycleCount.__add__",
             "cycle_count.CycleCount.__radd__",
             "cycle_count._cycle_count_add_checks",
             "cycle_count._handling_different_bins_in_sum",
             "cycle_count.pbar_sum", "utils.chunks"]
ASSUMPTIONS = ["time.sleep in pbar_sum is skipped",
               "warnings are not part of the claim"]


def one(ctx, n, p, hours, nres=2, sym=(), **kw):
    """a cycle count; the settings named in sym are arbitrary"""
    i = ord(p) - ord("a")
    k = dict(
        range_bin_lower_bound=0.25 * (i % 3), range_bin_width=0.5,
        _mean_bin_lower_bound=-10.0 * (i % 2), mean_bin_width=5.0 + i % 2,
        nr_small_cycles=ctx.whole(p + "sm", 0, 100),
        stress_concentration_factor=1.0,
        unit="kNm", name="abc",
    )
    if "range" in sym:
        k["range_bin_lower_bound"] = ctx.real(p + "lb", lo=0, hi=10)
        k["range_bin_width"] = ctx.real(p + "w", lo=0.01, hi=10)
    if "mean" in sym:
        k["_mean_bin_lower_bound"] = ctx.real(p + "mlb", lo=-100, hi=100)
        k["mean_bin_width"] = ctx.real(p + "mw", lo=0.01, hi=10)
    if "scf" in sym:
        k["stress_concentration_factor"] = ctx.real(p + "scf", lo=0.1, hi=10)
    k.update(kw)
    return count(ctx, n, p, nres=nres, hours=hours, **k)


def small(a, b):
    return a if bool(a <= b) else b


def large(a, b):
    return a if bool(a >= b) else b


def verdict(ctx, label, s, parts):
    """s is the sum of the pictures in parts"""
    exp = [r for p in parts for r in p["rows"]]
    same_rows(ctx, label, s, exp)
    ctx.eq_list(label + ":res", list(s.residuals_sequence),
                [v for p in parts for v in (p["res"] or [])])
    ctx.eq_list(label + ":mm", list(s.min_max_sequence),
                [v for p in parts for v in p["mm"]])
    tot = parts[0]["small"]
    rlb, rw = parts[0]["rlb"], parts[0]["rw"]
    mlb, mw = parts[0]["mlb"], parts[0]["mw"]
    for p in parts[1:]:
        tot = tot + p["small"]
        rlb, rw = small(rlb, p["rlb"]), large(rw, p["rw"])
        mlb, mw = small(mlb, p["mlb"]), large(mw, p["mw"])
    ctx.eq(label + ":small", s.nr_small_cycles, tot)
    ctx.eq(label + ":rlb", s.range_bin_lower_bound, rlb)
    ctx.eq(label + ":rw", s.range_bin_width, rw)
    ctx.eq(label + ":mlb", s.mean_bin_lower_bound, mlb)
    ctx.eq(label + ":mw", s.mean_bin_width, mw)
    ctx.check(label + ":unit", s.unit == parts[0]["unit"])
    ctx.check(label + ":name", s.name == parts[0]["name"])
    ctx.check(label + ":ts", s.timestamp == min(p["ts"] for p in parts))
    ctx.check(label + ":time", list(s.time_sequence) == sorted(
        set(t for p in parts for t in p["time"])))
    ctx.check(label + ":state", s.lffd_solved is False
              and s.mean_stress_corrected == "No")


def pair(ctx, n, m, na, nb, gap=1, none=None, sym=()):
    kw1 = dict(residuals_sequence=None) if none in ("a", "ab") else {}
    kw2 = dict(residuals_sequence=None) if none in ("b", "ab") else {}
    a = one(ctx, n, "a", 0, na, sym, **kw1)[0]
    b = one(ctx, m, "b", gap, nb, sym, **kw2)[0]
    fa, fb = freeze(a), freeze(b)
    s = a + b
    verdict(ctx, "sum", s, [fa, fb])
    ctx.eq("scf", s.stress_concentration_factor,
           (fa["scf"] + fb["scf"]) / 2)
    same(ctx, "left", freeze(a), fa)
    same(ctx, "right", freeze(b), fb)
    # the sum does not share memory with its operands
    s.stress_range[0] = s.stress_range[0] + 1
    s.mean_stress[0] = s.mean_stress[0] + 1
    s.count_cycle[0] = 7.0
    same(ctx, "left2", freeze(a), fa)
    # same instant: either order
    if gap == 0:
        t = b + a
        verdict(ctx, "rev", t, [fb, fa])
        ctx.reach("swap")


def triple(ctx, n, nres=2, sym=()):
    a, b, c = [one(ctx, n, p, h, nres, sym)[0] for p, h in (("a", 0), ("b", 1),
                                                 ("c", 2))]
    parts = [freeze(x) for x in (a, b, c)]
    verdict(ctx, "left", (a + b) + c, parts)
    verdict(ctx, "right", a + (b + c), parts)
    verdict(ctx, "sum", sum([a, b, c]), parts)
    for x, f in zip((a, b, c), parts):
        same(ctx, "operand", freeze(x), f)


def listsum(ctx, k, nones=()):
    import py_fatigue.cycle_count.cycle_count as m

    m.sleep = lambda *_: None
    many = {"counts": (1.0,)} if k > 9 else {}
    cs = [one(ctx, 1, chr(ord("a") + i), i, 2 if i < 2 else 0, **many)[0]
          for i in range(k)]
    parts = [freeze(x) for x in cs]
    lst = list(cs)
    for i in nones:
        lst.insert(i, None)
    s = m.pbar_sum(list(lst))
    verdict(ctx, "list", s, parts)
    for x, f in zip(cs, parts):
        same(ctx, "operand", freeze(x), f)
    ctx.reach("done")


def neutral(ctx, n):
    a = one(ctx, n, "a", 0)[0]
    fa = freeze(a)
    for nm, z in (("none", None), ("0", 0), ("0.0", 0.0),
                  ("nan", float("nan"))):
        same(ctx, nm, freeze(a + z), fa)
        same(ctx, nm + ":r", freeze(z + a), fa)
    for z in (1, 2.5, "x", [1, 2], (), {}):
        ctx.raises("refuse:%r" % (z,), TypeError, lambda: a + z)
    for z in (1, 2.5):
        ctx.raises("refuse:r:%r" % (z,), TypeError, lambda: z + a)


def refuse(ctx, n):
    a = one(ctx, n, "a", 0)[0]
    b = one(ctx, n, "b", 1, unit="MPa")[0]
    c = one(ctx, n, "c", 1)[0]
    d = one(ctx, n, "d", 2)[0]
    e = one(ctx, n, "e", 1.5)[0]
    ctx.raises("units", TypeError, lambda: a + b)
    ctx.raises("order", TypeError, lambda: c + a)
    s = a + d
    ctx.raises("overlap1", TypeError, lambda: s + c)
    ctx.raises("overlap2", TypeError, lambda: s + e)
    ctx.raises("overlap3", TypeError, lambda: c + s)
    t = a + c
    verdict(ctx, "ok", t + e, [freeze(a), freeze(c), freeze(e)])


def cases(tier):
    big = tier == "thorough"
    cs = [
        Case("pair%d_%d_%d_%d" % p, pair, n=p[0], m=p[1], na=p[2], nb=p[3],
             bounds="%d and %d cycles, %d and %d residuals" % p)
        for p in [(1, 1, 0, 0), (2, 1, 2, 3), (1, 3, 2, 2), (3, 3, 3, 3)]
        + ([(4, 4, 3, 4), (5, 3, 4, 2)] if big else [])
    ]
    cs += [
        Case("set_%s%d" % (g, k), pair, n=1, m=1, na=k, nb=k, sym=(g,),
             bounds="1 cycle each, arbitrary %s settings" % g)
        for g in ("range", "mean", "scf") for k in (0, 2)
    ]
    cs.append(Case("set_all", pair, n=1, m=1, na=0, nb=0,
                   sym=("range", "mean", "scf"),
                   bounds="1 cycle each, all settings arbitrary"))
    cs += [
        Case("same%d" % n, pair, n=n, m=n, na=2, nb=2, gap=0,
             bounds="%d cycles each at one instant" % n, must_reach=["swap"])
        for n in [1, 2]
    ]
    cs += [
        Case("none_%s" % w, pair, n=1, m=1, na=0 if "a" in w else 2,
             nb=0 if "b" in w else 2, none=w,
             bounds="1 cycle each, no residual sequence on side %s" % w)
        for w in ("a", "b", "ab")
    ]
    cs.append(Case("triple1", triple, n=1, bounds="3 counts with 1 cycle"))
    cs.append(Case("triple1r", triple, n=1, nres=0, sym=("range",),
                   bounds="3 counts with 1 cycle, arbitrary range bins"))
    if big:
        cs.append(Case("triple2", triple, n=2,
                       bounds="3 counts with 2 cycles"))
    cs += [
        Case("list%d_%d" % (k, len(z)), listsum, k=k, nones=z,
             bounds="list of %d counts and %d None" % (k, len(z)),
             must_reach=["done"])
        for k, z in [(1, ()), (2, ()), (3, ()), (1, (0,)), (2, (1,)),
                     (2, (0, 3)), (3, (0, 2)), (4, ()), (5, (2,)), (12, ()), (17, ()), (26, (3,))]
        + ([(5, ()), (4, (0, 0, 3)), (6, ()), (7, (2,)), (9, ())]
           if big else [])
    ]
    cs.append(Case("neutral2", neutral, n=2, bounds="2 cycles"))
    cs.append(Case("refuse1", refuse, n=1, bounds="1 cycle each"))
    cs.append(Case("pair300", pair, n=300, m=2, na=2, nb=2,
                   bounds="300 rows, the last one free, and 2 rows"))
    return also(cs, "pair2_1_2_3")
