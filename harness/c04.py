"""C04: equivariance of rainflow counting."""
from engine.case import Case
from harness.signals import signal

FUNCTIONS = ["rainflow.rainflow", "rainflow.findtp", "rainflow._findcross",
             "rainflow.findrfc_astm", "rainflow._findrfc5_astm"]
ASSUMPTIONS = ["scale factors from a fixed grid of both signs, offsets "
               "arbitrary"]


def rows(ctx, x):
    import py_fatigue.cycle_count.rainflow as rf

    return [tuple(r[:3]) for r in rf.rainflow(ctx.array(x))[0]]


def affine(ctx, fam, n, k=None):
    x = signal(ctx, fam, n, k)
    c = ctx.choice("c", [1.0, -1.0, 2.5, -0.3])
    o = ctx.real("o", lo=-1000, hi=1000)
    a = rows(ctx, x)
    b = rows(ctx, [v * c + o for v in x])
    ctx.check("rows", len(a) == len(b))
    for p, q in zip(a, b):
        ctx.eq("amplitude", q[0], p[0] * abs(c))
        ctx.eq("mean", q[1], p[1] * c + o)
        ctx.eq("count", q[2], p[2])
    if len(a) > 1:
        ctx.reach("rows")


def resample(ctx, fam, n, k=None, m=1):
    """m extra samples inserted anywhere on the runs (ends included)"""
    x = signal(ctx, fam, n, k)
    y = list(x)
    for i in range(m):
        j = ctx.int("j%d" % i, 0, len(y) - 2)
        w = ctx.choice("w%d" % i, [0.0, 0.25, 1.0])
        y.insert(j + 1, y[j] + (y[j + 1] - y[j]) * w)
    a = rows(ctx, x)
    b = rows(ctx, y)
    ctx.check("rows", len(a) == len(b))
    for p, q in zip(a, b):
        ctx.eq("amplitude", q[0], p[0])
        ctx.eq("mean", q[1], p[1])
        ctx.eq("count", q[2], p[2])
    if len(a) > 1:
        ctx.reach("rows")


def cases(tier):
    big = tier == "thorough"
    cs = []
    for n in [3, 4] + ([5, 6] if big else []):
        cs.append(Case("affine%d" % n, affine, fam="raw", n=n,
                       bounds="%d arbitrary samples" % n,
                       must_reach=["rows"]))
    for n in [5] + ([6, 7] if big else []):
        cs.append(Case("affalt%d" % n, affine, fam="alt", n=n,
                       bounds="%d reversals" % n, must_reach=["rows"]))
    for n, k in [(8, 5)] + ([(12, 7)] if big else []):
        cs.append(Case("affnest%d_%d" % (n, k), affine, fam="nest", n=n, k=k,
                       bounds="%d reversals, shrinking until %d" % (n, k),
                       must_reach=["rows"]))
    for n in [3, 4] + ([5] if big else []):
        cs.append(Case("insert%d" % n, resample, fam="raw", n=n,
                       bounds="%d samples, one inserted" % n,
                       must_reach=["rows"]))
    cs.append(Case("insalt5", resample, fam="alt", n=5,
                   bounds="5 reversals, one sample inserted",
                   must_reach=["rows"]))
    if big:
        cs.append(Case("insert4x2", resample, fam="raw", n=4, m=2,
                       bounds="4 samples, two inserted",
                       must_reach=["rows"]))
    cs.append(Case("insalt4x2", resample, fam="alt", n=4, m=2,
                   bounds="4 reversals, two samples inserted",
                   must_reach=["rows"]))
    return cs
