"""Signal families used by the rainflow harnesses."""
LO, HI = -1000, 1000


def raw(ctx, n, name="x", lo=LO, hi=HI):
    """n arbitrary samples"""
    return ctx.reals(name, n, lo=lo, hi=hi)


def alternating(ctx, n, name="x", up=None):
    """n reversals (alternating strictly up and down), arbitrary ranges"""
    if up is None:
        up = ctx.bool(name + "up")
    x = [ctx.real(name + "0", lo=LO, hi=HI)]
    for i in range(1, n):
        r = ctx.real("%sr%d" % (name, i), lo=0.01, hi=2000)
        x.append(x[-1] + r if up == (i % 2 == 1) else x[-1] - r)
    return x


def nested(ctx, n, k, name="x", up=None):
    """n reversals with ranges shrinking for the first k and growing after:
    deep stacks that unwind late"""
    if up is None:
        up = ctx.bool(name + "up")
    x = [ctx.real(name + "0", lo=LO, hi=HI)]
    prev = None
    for i in range(1, n):
        r = ctx.real("%sr%d" % (name, i), lo=0.01, hi=2000)
        if prev is not None:
            ctx.assume(r < prev if i < k else r > prev)
        prev = r
        x.append(x[-1] + r if up == (i % 2 == 1) else x[-1] - r)
    return x


def long(ctx, n, name="x", free=(3,), dev=3.0):
    """n samples with shrinking ranges, given except for the samples `free`
    (positions, negative ones from the end), which may be off by `dev`"""
    x = [((n - i) * 0.5 + 7.0) * (1 if i % 2 else -1) for i in range(n)]
    for p in free:
        x[p] = x[p] + ctx.real("%s%d" % (name, p % n), lo=-dev, hi=dev)
    return x


def bulk(ctx, label, got, exp):
    """rows compared as multisets, those without unknowns by sorting"""
    def known(rows):
        a, b = [], []
        for r in rows:
            r = tuple(r)
            (a if all(isinstance(v, (int, float)) for v in r)
             else b).append(r)
        a.sort(key=lambda r: tuple(round(float(v), 6) for v in r))
        return a, b

    g, gs = known(got)
    e, es = known(exp)
    if not gs and not es or len(g) != len(e):
        ctx.check(label + ":n", len(got) == len(exp))
    ctx.check(label + ":known", len(g) == len(e) and all(
        len(a) == len(b) and all(abs(u - v) < 1e-7 * (1 + abs(v))
                                 for u, v in zip(a, b))
        for a, b in zip(g, e)))
    if gs or es:
        ctx.matching(label, gs, es)


def signal(ctx, fam, n, k=None, name="x"):
    if fam == "raw":
        return raw(ctx, n, name)
    if fam == "alt":
        return alternating(ctx, n, name)
    return nested(ctx, n, k, name)


def make(ctx, x, kind):
    """the signal in the container asked for"""
    if kind == "list":
        return list(x)
    if kind == "int":
        return ctx.int_array(x)
    return ctx.array(x)


def distinct(x):
    """signal with equal neighbours collapsed"""
    y = [x[0]]
    for v in x[1:]:
        if not bool(v == y[-1]):
            y.append(v)
    return y
