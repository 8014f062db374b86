"""C27: aggregation of cycle counts over time."""
import contextlib
import io

from engine.case import Case
from harness.c16 import life
from harness.counts import T0, count, freeze, rows, same, stamp
from harness.curves import sn_curve
from harness.ref import astm, residue, reversals
from harness.warm import also

FUNCTIONS = ["cycle_count.utils.aggregate_cc", "cycle_count.utils.solve_lffd",
             "cycle_count.utils.calc_aggregated_damage",
             "cycle_count.cycle_count.pbar_sum", "utils.chunks",
             "cycle_count.CycleCount.__add__",
             "cycle_count.CycleCount.solve_lffd",
             "damage.stress_life.get_pm"]
ASSUMPTIONS = ["timestamps and missing cells from a grid of layouts, cycles "
               "and residuals arbitrary within the bounds",
               "pandas' grouping is executed as it is",
               "successive residuals differ by at least 0.01",
               "damage of several cycles: ranges not within 1e-6 (log) of a "
               "knee"]

# hours of the rows, expected groups of row numbers per period
DAYS = {
    "one": ([0, 6], "D", [("2020-01-01", [0, 1])]),
    "two": ([0, 23, 24], "D", [("2020-01-01", [0, 1]), ("2020-01-02", [2])]),
    "gap": ([0, 50, 60], "D", [("2020-01-01", [0]), ("2020-01-03", [1, 2])]),
    "month": ([0, 700, 744], "M", [("2020-01", [0, 1]), ("2020-02", [2])]),
    "all": ([0, 700, 9000], "all", [("True", [0, 1, 2])]),
    "ALL": ([5, 800], "ALL", [("True", [0, 1])]),
    "hour": ([0, 1, 2], "H", [("2020-01-01 00:00", [0]),
                              ("2020-01-01 01:00", [1]),
                              ("2020-01-01 02:00", [2])]),
    "four": ([0, 5, 10, 15], "D", [("2020-01-01", [0, 1, 2, 3])]),
    "five": ([0, 5, 10, 15, 20], "all", [("True", [0, 1, 2, 3, 4])]),
    "six": ([0, 2, 4, 6, 8, 10], "D", [("2020-01-01", [0, 1, 2, 3, 4, 5])]),
    "many": (list(range(17)), "D", [("2020-01-01", list(range(17)))]),
    "weeks": ([24 * i for i in range(12)], "all", [("True",
                                                    list(range(12)))]),
    "single": ([3], "D", [("2020-01-01", [0])]),
}


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def cell(ctx, i, p, n, nres, hours, many):
    # with many rows the counts alternate
    cnt = ([(1.0,), (0.5,), (2.0,)][i % 3] if many else (0.5, 1.0))
    cc, c, r, m, s = count(ctx, n, "%s%d" % (p, i), cnt, nres=nres,
                           hours=hours, unit="kNm", name=p,
                           nr_small_cycles=ctx.whole("%ssm%d" % (p, i), 0, 9))
    for a, b in zip(s, s[1:]):
        ctx.assume(abs(a - b) >= 0.01)
    return cc


def frame(ctx, lay, cols, n, nres, miss):
    import numpy as np
    import pandas as pd

    hrs = DAYS[lay][0]
    idx = pd.DatetimeIndex([T0.replace(tzinfo=None) + pd.Timedelta(hours=h)
                            for h in hrs])
    data = {}
    for p in cols:
        v = np.empty(len(hrs), dtype=object)
        last = None
        for i, h in enumerate(hrs):
            k = (miss or {}).get((p, i), 0)
            fixed = len(hrs) * len(cols) > 3
            v[i] = (cell(ctx, i, p, n, nres, h, fixed) if k == 0
                    else None if k is None else np.nan)
            if k == 0 and nres:
                if last is not None and nres == 1:
                    ctx.assume(abs(v[i].residuals_sequence[0] - last) >= 0.01)
                last = v[i].residuals_sequence[-1]
        data["CC_" + p] = v
    return pd.DataFrame(data, index=idx)


def missing(v):
    return v is None or (isinstance(v, float) and v != v)


def expected(ctx, cells):
    """rows, residual sequence and small cycles of a period"""
    ccs = [c for c in cells if not missing(c)]
    if not ccs:
        return None
    if len(ccs) == 1:
        ctx.reach("alone")
        return rows(ccs[0]), list(ccs[0].residuals_sequence), \
            ccs[0].nr_small_cycles, ccs
    allr = [x for c in ccs for x in rows(c)]
    seq = [v for c in ccs for v in c.residuals_sequence]
    small = sum([c.nr_small_cycles for c in ccs])
    if len(seq) >= 3:
        ctx.reach("resolved")
        rev = reversals(seq)
        return [x for x in allr if x[2] > 0.5] + astm(rev)[0], \
            residue(rev), small, ccs
    ctx.reach("summed")
    return allr, seq, small, ccs


def periods(ctx, lay, n=1, nres=2, cols="a", miss=None, save=False):
    from py_fatigue.cycle_count.utils import aggregate_cc

    df = frame(ctx, lay, cols, n, nres, miss)
    hrs, by, groups = DAYS[lay]
    before = {(c, i): freeze(v) for c in df for i, v in enumerate(df[c])
              if not missing(v)}
    out = quiet(aggregate_cc, df, by, **({"save_residuals": True} if save
                                         else {}))
    res = None
    if save:
        out, res = out
    for (c, i), f in before.items():
        same(ctx, "input", freeze(df[c].iloc[i]), f)
    ctx.check("periods", [str(x) for x in out.index] ==
              [g[0] for g in groups])
    ctx.check("columns", sorted(out.columns) == sorted(df.columns))
    for p in cols:
        got = list(out["CC_" + p])
        seqs = []
        for g, (_, ids) in zip(got, groups):
            cells = [df["CC_" + p].iloc[i] for i in ids]
            e = expected(ctx, cells)
            if e is None:
                ctx.check("missing", missing(g))
                ctx.reach("missing")
                continue
            ctx.check("there", not missing(g))
            ctx.matching("rows", rows(g), e[0])
            ctx.eq_list("res", list(g.residuals_sequence), e[1])
            ctx.eq("small", g.nr_small_cycles, e[2])
            ctx.check("unit", g.unit == "kNm")
            times = [t for c in e[3] for t in c.time_sequence.ravel()]
            ctx.check("time", list(g.time_sequence.ravel()) == sorted(
                set(times)))
            seqs.append([v for c in e[3] for v in c.residuals_sequence])
        if save:
            want = []
            for s in seqs:
                want += residue(reversals(s))
            ctx.eq_list("saved", list(res["CC_" + p]["res"]), want)
            ctx.check("index", len(res["CC_" + p]["idx"]) == len(want))
            ix = list(res["CC_" + p]["idx"])
            ctx.check("ordered", all(a <= b for a, b in zip(ix, ix[1:])))
    ctx.reach("done")


def others(ctx):
    """other columns get their mean"""
    import numpy as np
    import pandas as pd
    from py_fatigue.cycle_count.utils import aggregate_cc

    df = frame(ctx, "two", "a", 1, 2, None)
    nan = ctx.bool("nan")
    x = [1.5, np.nan if nan else 4.5, 7.0]
    df["wind"] = x
    df["ACC_x"] = [ctx.choice("g", [2.0, -1.0]), 3.0, 0.25]
    df["x_CC_"] = [2.0, 3.0, 0.5]
    g = list(df["ACC_x"])
    out = quiet(aggregate_cc, df, "D")
    w = list(out["wind"])
    ctx.eq_list("mean", w, [1.5 if nan else 3.0, 7.0])
    ctx.eq_list("mean", list(out["ACC_x"]), [(g[0] + g[1]) / 2, g[2]])
    ctx.eq_list("mean", list(out["x_CC_"]), [2.5, 0.5])
    ctx.reach("done")


def refused(ctx):
    import pandas as pd
    from py_fatigue.cycle_count.utils import aggregate_cc

    df = frame(ctx, "two", "a", 1, 2, None)
    i = df.index

    def call(d):
        return quiet(aggregate_cc, d, "D")

    ctx.raises("type", TypeError, call, [df])
    ctx.raises("type", TypeError, call, df["CC_a"])
    ctx.raises("index", TypeError, call, df.reset_index(drop=True))
    ctx.raises("order", ValueError, call, df.iloc[::-1])
    ctx.raises("unique", ValueError, call,
               df.set_index(pd.DatetimeIndex([i[0], i[0], i[2]])))
    ctx.reach("done")


def damage(ctx, slopes, form, shape, miss=None, n=1, end=False, named=False):
    """damage of every cell for every curve"""
    import numpy as np
    import pandas as pd
    from py_fatigue.cycle_count import CycleCount
    from py_fatigue.cycle_count.utils import calc_aggregated_damage

    sns = []
    for j, s in enumerate(slopes):
        kw = {"curve": "abc"[j]} if named else {}
        sns.append(sn_curve(ctx, len(s), s, "list", end, p="q%d" % j, **kw))
        if sns[-1].refused:
            return
    nr, cols = shape
    data, cells = {}, {}
    for p in cols:
        v = np.empty(nr, dtype=object)
        for i in range(nr):
            k = (miss or {}).get((p, i), 0)
            if k != 0:
                v[i] = None if k is None else np.nan
                cells[p, i] = []
                continue
            s = [ctx.pos("%s%ds%d" % (p, i, t), 1e-1, 1e3) for t in range(n)]
            c = [ctx.choice("%s%dc%d" % (p, i, t), [0.5, 1.0])
                 for t in range(n)]
            v[i] = CycleCount(count_cycle=np.array(c),
                              stress_range=ctx.array(s),
                              mean_stress=np.zeros(n), timestamp=stamp(i))
            cells[p, i] = list(zip(s, c))
        data["CC_" + p] = v
    df = pd.DataFrame(data, index=pd.period_range("2020-01", periods=nr,
                                                  freq="M"))
    df["wind"] = 1.0
    cv = [s.curve for s in sns]
    arg = (cv[0] if form == "curve" else cv if form == "list" else
           {"k%d" % i: c for i, c in enumerate(cv)})
    out = quiet(calc_aggregated_damage, df, arg)
    ctx.check("columns", list(out.columns) == ["CC_" + p for p in cols])
    ctx.check("rows", len(out) == nr * len(cv))
    lab = [x[0] for x in out.index]
    per = [str(x[1]) for x in out.index]
    ctx.check("labels", lab == ["m=%s" % c.slope for c in cv
                                for _ in range(nr)])
    ctx.check("periods", per == [str(x) for x in df.index] * len(cv))
    for j, sn in enumerate(sns):
        for p in cols:
            for i in range(nr):
                got = out["CC_" + p].iloc[j * nr + i]
                parts = []
                for s, c in cells[p, i]:
                    L = life(ctx, sn, s, n > 1)
                    if L is not None:
                        parts.append((c, L))
                if not parts:
                    ctx.eq("none", got, 0.0)
                    ctx.reach("none")
                elif len(parts) == 1:
                    c, L = parts[0]
                    ctx.eq("damage", ctx.log(got), ctx.log(c) - L)
                else:
                    tot = 0.0
                    for c, L in parts:
                        tot = tot + c * ctx.exp(-L)
                    ctx.eq("damage", ctx.log(got), ctx.log(tot))
                ctx.reach("done")


def curves_refused(ctx):
    import numpy as np
    import pandas as pd
    from py_fatigue.cycle_count.utils import calc_aggregated_damage

    sn = sn_curve(ctx, 1, (3,))
    bad = ctx.choice("bad", [3.0, None, "x"])
    df = pd.DataFrame({"CC_a": np.array([None], dtype=object)},
                      index=pd.period_range("2020-01", periods=1, freq="M"))
    ctx.raises("list", TypeError, calc_aggregated_damage, df,
               [sn.curve, bad])
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=("done",), **p):
        cs.append(Case(name, fn, must_reach=list(reach), bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items(), key=str)) or "small table",
            **p))

    d, nan = ("done",), float("nan")
    add("one", periods, d + ("resolved",), lay="one", n=2)
    add("two", periods, d + ("resolved", "alone"), lay="two")
    add("two_cols", periods, d, lay="one", cols="ab")
    add("gap", periods, d + ("resolved", "alone"), lay="gap")
    add("month", periods, d, lay="month", save=True)
    add("all", periods, d, lay="all", nres=1)
    add("ALL", periods, d, lay="ALL", save=True)
    add("hour", periods, d, lay="hour", save=True)
    add("four", periods, d, lay="four", nres=1)
    add("five", periods, d, lay="five", nres=1)
    add("nores", periods, d + ("summed",), lay="two", nres=0, n=2)
    add("six", periods, d + ("summed",), lay="six", nres=0)
    add("many", periods, d + ("summed",), lay="many", nres=0)
    add("weeks", periods, d + ("summed",), lay="weeks", nres=0,
        miss={("a", 4): None})
    add("single", periods, d + ("alone",), lay="single", n=2)
    for nm, k in (("none", None), ("nan", nan)):
        add("miss_first_" + nm, periods, d, lay="two", nres=2,
            miss={("a", 0): k})
        add("miss_mid_" + nm, periods, d, lay="four", nres=1,
            miss={("a", 1): k})
        add("miss_last_" + nm, periods, d, lay="four", nres=1,
            miss={("a", 3): k})
        add("miss_period_" + nm, periods, d + ("missing",), lay="two",
            miss={("a", 0): k, ("a", 1): k}, save=True)
        add("miss_only_" + nm, periods, d + ("missing",), lay="gap",
            miss={("a", 0): k})
        add("miss_most_" + nm, periods, d + ("alone",), lay="four", nres=1,
            miss={("a", 0): k, ("a", 1): k, ("a", 2): k})
    add("others", others)
    add("refused", refused)
    add("dmg_curve", damage, slopes=[(3,)], form="curve", shape=(2, "ab"))
    add("dmg_list", damage, slopes=[(3,), (5,)], form="list", shape=(2, "a"))
    add("dmg_list_named", damage, slopes=[(3,), (5,)], form="list",
        shape=(2, "a"), named=True)
    add("dmg_same", damage, slopes=[(3,), (3,)], form="list", shape=(1, "a"))
    add("dmg_dict", damage, slopes=[(4,), (4,)], form="dict", shape=(2, "a"))
    add("dmg_two", damage, slopes=[(3, 5)], form="curve", shape=(1, "a"),
        n=2)
    add("dmg_end", damage, d + ("endless",), slopes=[(3, 5)], form="curve",
        shape=(1, "a"), n=2, end=True)
    add("dmg_miss", damage, d + ("none",), slopes=[(3,)], form="list",
        shape=(3, "a"), miss={("a", 0): None, ("a", 2): nan})
    add("curves", curves_refused)
    if big:
        add("one3", periods, d, lay="one", n=2, nres=3)
        add("gap3", periods, d, lay="gap", n=1, nres=3, save=True)
        add("all2", periods, d, lay="all", nres=2, n=1)
        add("four2", periods, d, lay="four", nres=2, save=True)
        add("five1", periods, d, lay="five", nres=1, n=2)
        add("dmg_big", damage, slopes=[(3, 5), (4,), (3,)], form="list",
            shape=(2, "ab"), n=1)
        add("dmg_big2", damage, slopes=[(3, 5), (4, 7)], form="dict",
            shape=(1, "a"), n=3, end=True)
    return also(cs, "gap", "dmg_list")
