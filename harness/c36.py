"""C36: the tables of the damage accessors."""
import itertools

from engine.case import Case
from harness.counts import count, relabel

FUNCTIONS = ["damage.stress_life.PalmgrenMiner",
             "damage.stress_life.Gassner",
             "damage.crack_growth.CrackGrowth",
             "cycle_count.CycleCount.to_df"]
ASSUMPTIONS = ["tables made by to_df(), possibly with further columns and "
               "other row labels; counts from the listed choices, stresses "
               "arbitrary within the bounds"]
NEED = ("count_cycle", "mean_stress", "stress_range")
NEW = {"miner": {"cycles_to_failure", "pm_damage"},
       "gassner": {"shift_factor"},
       "cg": {"crack_depth", "sif", "cumul_cycle", "geometry_factor"}}


def evaluate(df, kind):
    from py_fatigue.geometry.generic import InfiniteSurface
    from py_fatigue.material import ParisCurve, SNCurve

    if kind == "cg":
        return df.cg.calc_growth(
            ParisCurve(slope=3.0, intercept=1e-13, threshold=2.0),
            InfiniteSurface(initial_depth=1.0))
    sn = SNCurve([3.0], [12.0])
    return df.miner.damage(sn) if kind == "miner" else df.gassner.g(sn)


def table(ctx, n, labels=False, extra=False, counts=(0.5, 1.0)):
    cc, c, r, m, _ = count(ctx, n, counts=counts, lo=1.0, hi=300.0,
                           log=True)
    df = cc.to_df()
    if labels:
        df = relabel(df)
    if extra:
        df.insert(1, "note", ["n%d" % i for i in range(n)])
        df["extra"] = [float(i) for i in range(n)]
    return df, c, r, m


def grown(ctx, kind, n, labels=False, extra=False, twice=None):
    """results are added, everything else stays"""
    df, c, r, m = table(ctx, n, labels, extra)
    index, columns = list(df.index), list(df.columns)
    out = evaluate(df, kind)
    kinds = [kind]
    if twice:
        out = evaluate(out, twice)
        kinds.append(twice)
    new = set().union(*(NEW[k] for k in kinds))
    ctx.check("index", list(out.index) == index)
    ctx.check("columns", list(out.columns)[:len(columns)] == columns)
    ctx.check("new", set(out.columns) == set(columns) | new)
    ctx.eq_list("count", list(out["count_cycle"]), c)
    ctx.eq_list("mean", list(out["mean_stress"]), m)
    ctx.eq_list("range", list(out["stress_range"]), r)
    if extra:
        ctx.check("note", list(out["note"]) == ["n%d" % i for i in range(n)])
        ctx.eq_list("extra", list(out["extra"]), [float(i)
                                                  for i in range(n)])
    ctx.reach("done")


def missing(ctx, kind, n):
    """tables without a needed column"""
    df = table(ctx, n)[0]
    for k in (1, 2, 3):
        for cols in itertools.combinations(NEED, k):
            part = df.drop(columns=list(cols))
            ctx.raises("missing:" + ",".join(cols), AttributeError,
                       evaluate, part, kind)
            ctx.check("untouched", set(part.columns) == set(NEED)
                      - set(cols))
    ctx.reach("done")


def again(ctx, kind, n, labels):
    """a table already evaluated, handed over as a new one"""
    df = table(ctx, n, labels)[0]
    out = evaluate(df, kind).copy()
    cols = list(out.columns)
    before = [list(out[x]) for x in cols]
    ctx.raises("again", AttributeError, evaluate, out, kind)
    ctx.check("columns", list(out.columns) == cols)
    for x, b in zip(cols, before):
        ctx.check("kept:" + x, all(p is q or bool(p == q) or (
            bool(p != p) and bool(q != q)) for p, q in zip(out[x], b)))
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, **p):
        cs.append(Case(name, fn, must_reach=["done"], bounds=", ".join(
            "%s=%s" % q for q in sorted(p.items())), **p))

    for kind in ("miner", "gassner", "cg"):
        for n in (1, 2) + ((3,) if big else ()):
            add("%s%d" % (kind, n), grown, kind=kind, n=n)
        add(kind + "_labels", grown, kind=kind, n=2, labels=True, extra=True)
        add(kind + "_many", grown, kind=kind, n=300)
        add(kind + "_missing", missing, kind=kind, n=2)
        add(kind + "_again", again, kind=kind, n=2, labels=False)
        if big:
            add(kind + "_again3", again, kind=kind, n=3, labels=True)
    for a, b in itertools.permutations(("miner", "gassner", "cg"), 2):
        add("%s_%s" % (a, b), grown, kind=a, twice=b, n=1 + big, labels=True,
            extra=True)
    return cs
