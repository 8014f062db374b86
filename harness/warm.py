"""Cases run after other calls on other, fixed data: results must not depend
on what was computed before."""
import contextlib
import io
import warnings

from engine.case import Case
from harness.counts import stamp


def sn_of(slopes, **kw):
    from py_fatigue.material import SNCurve

    a = [11.25]
    for i in range(1, len(slopes)):
        ls = (a[-1] - 5.5 - i) / slopes[i - 1]
        a.append(5.5 + i + slopes[i] * ls)
    return SNCurve(slope=list(slopes), intercept=a, **kw)


def curves(slopes):
    import numpy as np
    from py_fatigue.material import ParisCurve

    up = sorted(float(m) for m in slopes)
    for kw in ({}, {"endurance": 3.0e9}, {"unit_string": "MPa"}):
        sn = sn_of(up, **kw)
        sn.get_knee_stress()
        sn.get_knee_cycles()
        sn.endurance_stress
        sn.get_cycles(75.0)
        sn.get_stress(2.0e5)
        for n in (1, 2, 3):
            sn.get_cycles(np.array([200.0, 90.0, 30.0][:n]))
            sn.get_stress(np.array([1e4, 2e5, 3e6][:n]))
    down = up[::-1]
    i = [2e-12]
    for j in range(1, len(down)):  # knees at 100, 200...
        i.append(i[-1] * (100.0 * j) ** (down[j - 1] - down[j]))
    for kw in ({}, {"threshold": 20.0, "critical": 3000.0}):
        pc = ParisCurve(slope=down, intercept=i, **kw)
        pc.get_knee_sif()
        pc.get_knee_growth_rate()
        pc.get_growth_rate(40.0)
        for n in (1, 2, 3):
            r = pc.get_growth_rate(np.array([30.0, 250.0, 1500.0][:n]))
            pc.get_sif(r)
    return sn_of(up, unit_string="MPa"), pc


def counts(sn):
    import numpy as np
    import py_fatigue.mean_stress.corrections as co
    from py_fatigue.cycle_count import CycleCount
    from py_fatigue.cycle_count import rainflow as rf
    from py_fatigue.damage import crack_growth as cg
    from py_fatigue.damage import stress_life as sl
    from py_fatigue.geometry import HollowCylinder, InfiniteSurface
    from py_fatigue.material import ParisCurve

    x = np.array([1.5, -2.0, 7.0, 0.5, 6.0, -9.0, 3.0, 2.75])
    for n in (3, 4, 5, 8):
        rf.rainflow(x[:n])
        rf.findcross(x[:n])
        rf.findextrema(x[:n])
        rf.findtp(x[:n])
    one = CycleCount.from_timeseries(x, timestamp=stamp(0), unit="MPa")
    res = []
    for n in (1, 2, 3):
        res.append(CycleCount(
            count_cycle=np.array([1.0, 2.0, 0.5][:n]),
            stress_range=np.array([33.0, 57.0, 21.0][:n]),
            mean_stress=np.array([4.0, -8.0, 2.0][:n]), timestamp=stamp(0),
            unit="MPa", range_bin_width=20.0, mean_bin_width=10.0,
            _mean_bin_lower_bound=-20.0,
            residuals_sequence=np.array([1.0, -2.0, 4.0, -1.0])))
    pc = ParisCurve(slope=3.0, intercept=1e-13, unit_string="MPa √mm")
    for cc in [one] + res:
        cc + res[0]
        cc * 1.75
        cc.solve_lffd()
        cc.bin_edges
        cc.bin_centers
        cc.full_cycles
        cc.half_cycles
        cc.statistical_moments
        cc.mean_stress_correction(detail_factor=0.8)
        if cc is not one:
            CycleCount.from_rainflow(cc.as_dict(), timestamp=stamp(0))
            CycleCount.from_rainflow(cc.as_dict(legacy_export=True))
        sl.get_pm(cc, sn)
        sl.get_des(cc, 3.0)
        sl.get_dem(3.0, 1.5, cc, 3.0)
        sl.get_nonlinear_damage("leve", cc, sn)
        sl.get_nonlinear_damage("pavlou", cc, sn)
        cc.to_df().miner.damage(sn)
        if len(sn.slope) == 1:
            cc.to_df().gassner.g(sn)
        cg.get_crack_growth(cc, pc, InfiniteSurface(initial_depth=1.5))
        r, m = cc.stress_range / 2, cc.mean_stress
        co.dnvgl_mean_stress_correction(m, r)
        co.walker_mean_stress_correction(m, r, 0.6)
        co.swt_mean_stress_correction(m, r)
    HollowCylinder(initial_depth=1.0, outer_diameter=150.0, thickness=9.0,
                   height=1000.0, crack_position="external",
                   width_to_depth_ratio=1.2)


def everything(slopes=(3,)):
    with contextlib.redirect_stdout(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sn, _ = curves(slopes)
        counts(sn)


def used(fn):
    def run(ctx, **p):
        m = p.get("slopes") or (p.get("slope", 3),)
        everything(m if isinstance(m, tuple) else (3,))
        return fn(ctx, **p)

    return run


def also(cs, *names):
    """repeats the named cases after other calls"""
    d = {c.name: c for c in cs}
    for n in names:
        c = d[n]
        cs.append(Case("used_" + n, used(c.fn), bounds=c.bounds +
                       ", after other calls on other data",
                       must_reach=c.must_reach, opts=c.opts, **c.params))
    return cs
