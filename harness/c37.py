"""C37: table and summary of a cycle count."""
from engine.case import Case
from harness.counts import count, freeze, same, stamp

FUNCTIONS = ["cycle_count.CycleCount.to_df",
             "cycle_count.CycleCount._repr_html_",
             "cycle_count.CycleCount.full_cycles",
             "cycle_count.CycleCount.residuals"]
ASSUMPTIONS = ["the table behind the HTML summary is taken before pandas "
               "renders it", "counts from the listed choices; stresses "
               "arbitrary within the bounds; ranges not within 1e-3 of the "
               "lower bin bound"]
ROWS = {"full_range": "largest full stress range",
        "range": "largest stress range", "full": "number of full cycles",
        "half": "number of residuals", "small": "number of small cycles",
        "scf": "stress concentration factor", "lffd": "residuals resolved",
        "msc": "mean stress-corrected"}


def summary(cc):
    """the summary's entries, by row title"""
    import pandas as pd

    seen = []

    def keep(self, *a, **k):
        seen.append(self)
        return "<table></table>"

    old = pd.DataFrame._repr_html_, pd.DataFrame.to_html
    try:
        pd.DataFrame._repr_html_ = pd.DataFrame.to_html = keep
        text = cc._repr_html_()
    finally:
        pd.DataFrame._repr_html_, pd.DataFrame.to_html = old
    df = seen[-1]
    return text, list(df.columns), dict(zip(df.index, df.iloc[:, 0]))


def largest(v):
    best = v[0]
    for x in v[1:]:
        if bool(x > best):
            best = x
    return best


def told(ctx, n, counts, small=0, scf=None, lb=0.2):
    kw = {"nr_small_cycles": small, "unit": "ksi", "name": "Q",
          "range_bin_lower_bound": lb}
    if scf:
        kw["stress_concentration_factor"] = scf
    kw["lffd_solved"] = lffd = ctx.bool("lffd")
    kw["mean_stress_corrected"] = msc = ctx.choice("msc", ["No", "Walker"])
    cc, c, r, m, _ = count(ctx, n, counts=counts, **kw)
    for x in r:
        ctx.assume(abs(x - lb) >= 1e-3)
    before = freeze(cc)
    text, cols, got = summary(cc)
    ctx.check("text", text == "<table></table>" and cols == ["Q"])

    def entry(key):
        for k, v in got.items():
            if k.startswith(ROWS[key]):
                return k, v
        ctx.check("row:" + key, False)
        return "", None

    full = [x for x, k in zip(r, c) if k >= 1]
    big = largest(full) if full else None
    if big is not None and bool(big <= lb):
        big = None
        ctx.reach("below")
    for key, want in (("full_range", big), ("range", largest(r))):
        k, v = entry(key)
        ctx.check("unit", "ksi" in k)
        if want is None:
            ctx.check("none", v is None or bool(v != v))
            ctx.reach("none")
        else:
            ctx.check("value", v is not None)
            ctx.eq(key, v, want)
            ctx.reach("value")
    for key, want in (("full", sum(int(k) for k in c)),
                      ("half", sum(k % 1 == 0.5 for k in c)),
                      ("small", small)):
        ctx.eq(key, entry(key)[1], want)
    v = entry("scf")[1]
    ctx.check("scf", v == scf if scf else v == "N/A")
    ctx.check("lffd", bool(entry("lffd")[1]) == lffd)
    ctx.check("msc", entry("msc")[1] == msc)
    same(ctx, "kept", before, freeze(cc))
    ctx.reach("done")


def table(ctx, n, counts, nres):
    """the table holds the rows and knows where they come from"""
    small = ctx.choice("small", [0, 3])
    lffd = ctx.bool("lffd")
    cc, c, r, m, res = count(ctx, n, counts=counts, nres=nres, hours=5,
                             nr_small_cycles=small, unit="ksi", name="Q",
                             lffd_solved=lffd, mean_stress_corrected="SWT",
                             stress_concentration_factor=1.5)
    before = freeze(cc)
    df = cc.to_df()
    ctx.check("columns", set(df.columns) == {"count_cycle", "mean_stress",
                                             "stress_range"})
    ctx.eq_list("count", list(df["count_cycle"]), c)
    ctx.eq_list("mean", list(df["mean_stress"]), m)
    ctx.eq_list("range", list(df["stress_range"]), r)
    md = dict(df._metadata)
    ctx.check("name", md["name"] == "Q" and md["unit"] == "ksi")
    ctx.check("time", md["timestamp"] == stamp(5)
              and list(md["time_sequence"]) == list(cc.time_sequence))
    ctx.check("small", md["nr_small_cycles"] == small)
    ctx.check("lffd", md["lffd_solved"] == lffd)
    ctx.check("msc", md["mean_stress_corrected"] == "SWT")
    ctx.eq("scf", md["stress_concentration_factor"], 1.5)
    ctx.eq_list("residuals", list(md["residuals_sequence"]), res)
    other = count(ctx, 1, p="o", unit="MPa", name="P")[0].to_df()
    ctx.check("apart", dict(df._metadata)["unit"] == "ksi"
              and dict(other._metadata)["unit"] == "MPa")
    same(ctx, "kept", before, freeze(cc))
    ctx.reach("done")


def cases(tier):
    big = tier == "thorough"
    cs = []

    def add(name, fn, reach=(), **p):
        cs.append(Case(name, fn, must_reach=list(reach) + ["done"],
                       bounds=", ".join("%s=%s" % q
                                        for q in sorted(p.items())), **p))

    some = (0.5, 1.0, 2.5)
    add("summary1", told, ["value", "none", "below"], n=1,
        counts=(0.5, 1.0, 2.0, 3.5, 1e6))
    add("summary2", told, ["value", "none", "below"], n=2, counts=some,
        small=4, scf=1.25)
    add("summary3", told, ["value", "none"], n=3,
        counts=some if big else (0.5, 1.0), lb=5.0)
    add("summary300", told, ["value"], n=300, counts=(1.0, 0.5))
    add("table300", table, n=300, counts=(1.0, 0.5), nres=3)
    add("table1", table, n=1, counts=some, nres=3)
    add("table2", table, n=2, counts=some, nres=4)
    add("table3", table, n=3, counts=some if big else (0.5, 1.0), nres=3)
    return cs
