"""Symbolic S-N and Paris curves."""
import types

SLOPES = [
    ("m3", 1, (3,)), ("m4h", 1, (4.5,)), ("m3_5", 2, (3, 5)),
    ("m5_3", 2, (5, 3)), ("m4h_6", 2, (4.5, 6)), ("m3_5_7", 3, (3, 5, 7)),
    ("m1", 1, (1,)), ("m3_9h", 2, (3.0, 9.5)), ("m4_6_9", 3, (4, 6, 9)),
    ("m3_4_3", 3, (3, 4, 3)), ("m3_4_5_6", 4, (3, 4, 5, 6)),
]


def give(ctx, form, v):
    if form == "number":
        return v[0]
    if form == "array":
        return ctx.array(v)
    if form == "np":
        return tuple(v)
    return list(v)


def sn_curve(ctx, k, slopes, form="list", end=False, p="", alo=6.0, ahi=20.0,
             **kw):
    """an S-N curve with symbolic intercepts (and endurance)"""
    from py_fatigue.material import SNCurve

    aa = [ctx.real("%sa%d" % (p, i), lo=alo, hi=ahi) for i in range(k)]
    o = types.SimpleNamespace(ms=[float(m) for m in slopes[:k]], aa=aa,
                              refused=False, end=None, curve=None)
    if end:
        o.end = ctx.pos(p + "end", 1e3, 1e12)
        kw["endurance"] = o.end
    try:
        o.curve = SNCurve(give(ctx, form, o.ms), give(ctx, form, aa), **kw)
    except ValueError:
        o.refused = True
    return o
