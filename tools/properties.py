"""Writes properties.jsonl (run by hand after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RF = "py_fatigue/cycle_count/rainflow.py"
CC = "py_fatigue/cycle_count/cycle_count.py"
HI = "py_fatigue/cycle_count/histogram.py"
CU = "py_fatigue/cycle_count/utils.py"
UT = "py_fatigue/utils.py"
SN = "py_fatigue/material/sn_curve.py"
CG = "py_fatigue/material/crack_growth_curve.py"
SL = "py_fatigue/damage/stress_life.py"
DG = "py_fatigue/damage/crack_growth.py"
GC = "py_fatigue/geometry/cylinder.py"
GG = "py_fatigue/geometry/generic.py"
MS = "py_fatigue/mean_stress/corrections.py"
TE = "py_fatigue/testing.py"

P = []


def prop(id, title, statement, over, q, why, files, mech, state=(), obs=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": q},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s))
                      for s in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(obs),
            "hook_needed": None,
        },
    })


prop(
    "C01", "Rainflow counting follows ASTM E1049",
    "For every signal, given as list or array and with or without a time "
    "vector, rainflow() returns exactly the cycles of the ASTM E1049-85 "
    "three-point procedure applied to the signal's reversals: the same "
    "amplitudes (half ranges), means and counts (0.5 or 1), with no row lost, "
    "duplicated or empty. Each row also carries the index of the sample where "
    "its cycle begins and, as period, twice the number of samples between the "
    "two points that form it. Counting a turning-point sequence directly, "
    "with or without its times, gives the same cycles.",
    ["inputs"],
    "all signals up to the bounded length, ties, plateaus, monotone and "
    "constant stretches included",
    "tests compare a few fixed signals; which points close a cycle depends on "
    "every ordering of the ranges, ties included",
    [RF],
    [("rainflow", RF), ("findrfc_astm", RF), ("_findrfc5_astm", RF),
     ("_findrfc3_astm", RF), ("findtp", RF)],
    obs=["rows returned by rainflow()"],
)
prop(
    "C02", "Turning points and level crossings are exactly those of the signal",
    "findextrema() returns precisely the indices where the signal changes "
    "direction (one per plateau, the end of a leading plateau included) and "
    "findtp() adds the first and last sample, so the signal is monotone "
    "between consecutive turning points and turns at every inner one. "
    "findcross() returns, in increasing order, the indices after which "
    "the signal passes from one side of the level to the other (or leaves a "
    "start on the level); its up- and "
    "down-crossings partition all crossings and alternate, the result depends "
    "only on the signal minus the level, NaN samples are refused with "
    "ValueError and so is an unknown kind.",
    ["inputs"],
    "all signals and levels up to the bounded length",
    "tests use a handful of smooth signals without samples on the level or "
    "equal neighbours",
    [RF], [("findtp", RF), ("findextrema", RF), ("findcross", RF),
           ("_findcross", RF)],
)
prop(
    "C03", "Rainflow counting conserves reversals and total variation",
    "For every signal the counts of all cycles add up to half the number of "
    "monotone runs of the signal, and the ranges weighted by twice the count "
    "add up to the signal's total variation. The largest counted range is the "
    "overall range of the signal, no amplitude is zero or negative, and every "
    "cycle lies between the signal's minimum and maximum.",
    ["inputs"], "all signals up to the bounded length",
    "the balance must hold for every order of peaks and valleys; tests fix a "
    "few", [RF, CC],
    [("rainflow", RF), ("_findrfc5_astm", RF), ("from_timeseries", CC)],
)
prop(
    "C04", "Rainflow is equivariant to offset, scale, sign and resampling",
    "Shifting a signal shifts every cycle mean and nothing else, multiplying "
    "it by a non-zero factor multiplies ranges by its magnitude and means by "
    "the factor, leaving the counts and order unchanged. Inserting samples on "
    "the monotone runs or repeating samples does not change the counted "
    "ranges, means and counts.",
    ["inputs"], "all signals up to the bounded length, all offsets and scale "
    "factors of either sign, all insertion points",
    "relation between two runs for arbitrary inputs, never sampled by tests",
    [RF], [("rainflow", RF), ("findtp", RF), ("_findcross", RF)],
)
prop(
    "C05", "The residual sequence reproduces exactly the half cycles",
    "The residual signal returned with a rainflow count is a subsequence of "
    "the signal at the returned (increasing) indices and times, it ends with "
    "the last sample and consecutive values are exactly the extremes of the "
    "half cycles in order. Counting the residual signal again gives these "
    "same half cycles and no full cycle.",
    ["inputs"], "all signals up to the bounded length",
    "holds for all orders of peaks; tests check one or two sequences",
    [RF, CC], [("rainflow", RF), ("from_timeseries", CC),
               ("residuals", CC), ("split_full_cycles_and_residuals", UT)],
)
prop(
    "C06", "A cycle count built from a time series is the signal's rainflow",
    "CycleCount.from_timeseries() holds, cycle by cycle and in order, twice "
    "the rainflow amplitudes, the means and the counts of the signal together "
    "with the residual sequence, whatever container the data come in and "
    "whatever bin settings, name, unit and time are given, and keeps those "
    "settings. The derived quantities agree with one another: amplitude is "
    "half the range, minimum and maximum are mean minus and plus amplitude "
    "and lie within the signal, full cycles and residuals together are all "
    "cycles, and the data frame and mean/range moments report the same "
    "numbers.",
    ["inputs", "configurations"],
    "all signals up to the bounded length and all admissible settings",
    "tests use fixed sample signals with default settings",
    [CC, UT], [("from_timeseries", CC), ("stress_amplitude", CC),
               ("min_stress", CC), ("max_stress", CC), ("full_cycles", CC),
               ("residuals", CC), ("to_df", CC),
               ("statistical_moments", CC)],
)
prop(
    "C07", "Export and re-import of a cycle count lose at most half a bin",
    "Re-importing what as_dict() exported, in the mean-resolved or the "
    "legacy format, gives back every cycle not discarded as small: the "
    "number of full cycles per mean class and range class and the number of "
    "half cycles are unchanged, binned cycles move by at most half a bin "
    "width in range and in mean, and large cycles, half cycles and the "
    "residual sequence keep their values up to the rounding. Cycles below "
    "the lower range bound are dropped and added to the small cycles, and "
    "the bin settings and timestamp survive; the legacy format loses the "
    "means only.",
    ["inputs", "configurations"],
    "all cycle counts with a bounded number of cycles and all bin settings of "
    "the bounded grid",
    "tests re-import two fixed counts; loss or duplication depends on where "
    "cycles fall relative to the bin edges",
    [CC, HI, UT],
    [("as_dict", CC), ("from_rainflow", CC), ("rainflow_binner", HI),
     ("binned_rainflow", HI), ("_build_input_data_from_json", CC)],
)
prop(
    "C08", "Binning keeps damage-relevant cycles within the tolerance",
    "When a cycle count is exported with a damage tolerance for binning, "
    "every full cycle whose share of the maximum damage exceeds the "
    "tolerance and whose damage would change by more than the tolerance "
    "when moved to its bin centre is kept individually with its own range "
    "and mean. In order of mean and range class, a cycle more than the "
    "allowed number of classes above the last binned one is kept "
    "individually too. All other cycles are binned, none is both binned and "
    "kept.",
    ["inputs", "configurations"],
    "all cycle counts with a bounded number of cycles, all tolerances, damage "
    "exponents and gap limits within the bounds",
    "the threshold decision depends on every cycle's position in its bin",
    [HI, CC], [("rainflow_binner", HI), ("as_dict", CC)],
)
prop(
    "C09", "Bins cover all cycles with the requested origin and width",
    "Bin edges start at the lower bound and are spaced by the bin width, the "
    "upper bound is the smallest lower bound plus a whole number of widths "
    "that is not below the largest value, bin centres lie midway between "
    "neighbouring edges, and binning counts every cycle at or above the lower "
    "bound exactly once in the bin that contains it. The default mean bin "
    "origin is such that the smallest mean lies in the first mean bin.",
    ["inputs", "configurations"],
    "all lower bounds, widths and values within the bounds",
    "edges and ceil arithmetic matter only for values on or near bin edges",
    [UT, CC, HI], [("calc_bin_edges", UT), ("bin_upper_bound", UT),
                   ("bin_edges", CC), ("bin_centers", CC),
                   ("binned_rainflow", HI), ("rainflow_binner", HI)],
)
prop(
    "C10", "Splitting cycles into full and half conserves the counts",
    "A cycle with count n is split into floor(n) full cycles and, when the "
    "fractional part is one half, one half cycle, each with the cycle's range "
    "and mean; order is kept and nothing else is created, so total count and "
    "damage are unchanged. The full_cycles and residuals views of any cycle "
    "count obey this.",
    ["inputs"], "all cycle tables with a bounded number of rows and counts",
    "tests use counts of 0.5 and 1 almost exclusively",
    [UT, CC], [("split_full_cycles_and_residuals", UT),
               ("calc_full_cycles", UT), ("calc_half_cycles", UT),
               ("full_cycles", CC), ("residuals", CC)],
)
prop(
    "C11", "Adding cycle counts conserves every cycle",
    "The sum of cycle counts holds exactly the cycles of the operands "
    "(range, mean, count), their residual sequences one after the other and "
    "the sum of their small cycles, keeps their unit, takes the lower bin "
    "origins and the larger bin widths, and covers their time spans; it is "
    "associative, order-independent up to the order of cycles where both "
    "orders are allowed, has None, 0 and NaN as neutral elements and equals "
    "the result of summing a list. Counts in different units, not in time "
    "order, or other types are refused with TypeError; neither operand is "
    "modified.",
    ["inputs", "histories"],
    "all pairs and triples of cycle counts with a bounded number of cycles "
    "and arbitrary settings",
    "tests add two or three fixed counts", [CC],
    [("__add__", CC), ("__radd__", CC), ("pbar_sum", CC)],
    state=[("residuals_sequence", "residual reversals in order", CC),
           ("timestamp", "start of the count", CC)],
)
prop(
    "C12", "Resolving the residuals recovers low-frequency cycles",
    "Resolving the low-frequency dynamics keeps every full cycle, replaces "
    "the half cycles by the rainflow of the residual sequence (a count with "
    "fewer than three residuals is returned as it is), keeps unit, bins, "
    "small cycles and other settings, marks the result as resolved and "
    "leaves the original untouched. For one signal it changes no cycle, and "
    "for counts of consecutive pieces of a signal the resolved sum equals "
    "the count of the concatenated residuals.",
    ["inputs", "histories"],
    "all signals and pairs of signals up to the bounded length, all cycle "
    "counts with a bounded number of cycles",
    "tests use recorded data; the closing of half cycles across pieces "
    "depends on all relative magnitudes",
    [CC, CU], [("solve_lffd", CC), ("solve_lffd", CU),
               ("_lffd_checks", CC)],
)
prop(
    "C13", "Multiplying a cycle count by a factor scales stresses only",
    "Multiplying a cycle count by a positive number scales every range, mean, "
    "residual and bin quantity by that number, multiplies the stress "
    "concentration factor, keeps counts, small cycles, unit, time and "
    "timestamp, works from either side and composes (two factors equal their "
    "product). Factors that are not real numbers are refused with TypeError "
    "and the original is not modified.",
    ["inputs"], "all cycle counts with a bounded number of cycles, all factors",
    "tests use integer factors on fixed counts", [CC],
    [("__mul__", CC), ("__rmul__", CC), ("_multiplication_by_scalar", CC)],
)
prop(
    "C14", "An S-N curve gives the endurance of its governing segment",
    "For any stress range above the endurance limit the number of cycles is "
    "the largest of the segments' intercept over stress-to-the-slope laws, "
    "and for any slopes and intercepts given as number, list or array "
    "consecutive segments meet at the reported knee points; at cycles beyond "
    "the endurance the life is infinite and the endurance stress is the "
    "stress at the endurance cycles. Scalars, lists and arrays give the same "
    "values elementwise, negative stresses are refused.",
    ["inputs", "configurations"],
    "all curves with up to three segments, all stresses",
    "tests evaluate a few standard curves at a few stresses",
    [SN], [("get_cycles", SN), ("get_knee_stress", SN),
           ("get_knee_cycles", SN), ("endurance_stress", SN)],
)
prop(
    "C15", "S-N stress and cycles are inverse and decreasing",
    "Between the extremes of an S-N curve, the stress for the cycles at a "
    "stress gives the stress back and vice versa, on every segment and at the "
    "knees; beyond the endurance the stress stays at the endurance stress. "
    "Fewer cycles never correspond to a lower stress and a higher stress "
    "never has a longer life.",
    ["inputs", "configurations"],
    "all curves with up to three segments, all stress and cycle pairs",
    "tests check round trips for single values", [SN],
    [("get_cycles", SN), ("get_stress", SN)],
)
prop(
    "C16", "Palmgren-Miner damage is the sum of cycle ratios",
    "The damage of a cycle count is the sum over its cycles of count divided "
    "by the S-N life at that range, by any of the offered routes (method, "
    "function, accessor on a table). Hence it is additive over added cycle "
    "counts and over splits of a table, independent of the order of cycles, "
    "non-negative, zero only when no cycle is above the endurance limit, and "
    "never decreases when a cycle's range or count grows.",
    ["inputs", "configurations"],
    "all cycle counts with a bounded number of cycles, curves of up to three "
    "segments with or without endurance",
    "tests compare two fixed histories", [SL, SN],
    [("calc_pm", SL), ("get_pm", SL), ("Miner.damage", SL)],
)
prop(
    "C17", "Damage-equivalent stress and moment reproduce the damage",
    "The damage-equivalent stress range applied for the equivalent number of "
    "cycles causes the same damage, for the given slope, as the cycles "
    "themselves; it scales linearly with the stresses, lies between the "
    "smallest and the largest range when the numbers of cycles agree, and "
    "does not depend on the order of cycles. The equivalent moment is that "
    "stress times the section modulus of the tube, and a tube whose outer "
    "radius does not exceed its inner radius is refused with ValueError.",
    ["inputs", "configurations"],
    "all cycle counts with a bounded number of cycles, all integer slopes in "
    "range, all radii",
    "tests compare two fixed histories", [SL],
    [("calc_des", SL), ("calc_dem", SL), ("get_des", SL), ("get_dem", SL),
     ("Miner.des", SL), ("Miner.dem", SL)],
)
prop(
    "C18", "Nonlinear damage rules accumulate their recurrences in order",
    "Each supported rule (Pavlou, Manson-Halford, Si Jian et al., Leve) "
    "accumulates damage cycle after cycle by raising the sum of previous "
    "damage and cycle ratio to its exponent, in the order of the cycles: "
    "for cycle j the ratio of the next to the present range to the base "
    "power (Pavlou, -0.75 by default), the ratio of the present to the next "
    "life to the base power (Manson-Halford, 0.4), the ratio of the next to "
    "the present range (Si Jian), one for the last cycle, or the base "
    "exponent throughout (Leve, 2). With equal ranges, or a Leve exponent "
    "of one, the result is the linear sum, and an unknown rule name is "
    "refused with ValueError. Cycles of infinite life add no damage and are "
    "left out of the Manson-Halford ratios.",
    ["inputs", "histories"],
    "all histories with a bounded number of cycles",
    "exponents depend on neighbouring cycles and their order", [SL],
    [("calc_nonlinear_damage", SL), ("get_nonlinear_damage", SL),
     ("calc_manson_halford_exponents", SL), ("calc_pavlou_exponents", SL),
     ("calc_si_jian_exponents", SL), ("calc_leve_exponents", SL)],
)
prop(
    "C19", "Unit mismatch between loads and material curve is refused",
    "Every damage and crack-growth entry point that takes a cycle count (or "
    "a table carrying a unit) and a material curve raises an error, instead "
    "of returning a number, when their units differ, and accepts them when "
    "they agree; for a Paris curve the stress unit is the first word of its "
    "unit string. Units given to a cycle count survive addition, scaling, "
    "residual resolution and mean stress correction.",
    ["inputs", "histories", "configurations"],
    "all pairs of units, all sequences of the four operations up to the "
    "bounded length",
    "tests check one mismatch per function, none after operations",
    [SL, DG, CC], [("get_pm", SL), ("get_nonlinear_damage", SL),
                   ("get_crack_growth", DG), ("__add__", CC),
                   ("_multiplication_by_scalar", CC)],
)
prop(
    "C20", "DNVGL mean stress correction reduces compression only",
    "The corrected range is the original range times (max + p|min|)/(max + "
    "|min|): fully tensile cycles keep their range, fully compressive ones "
    "get the detail factor 0.8, or are neglected altogether for the detail "
    "factor 0.6 as documented. In between the reduction factor lies between "
    "detail factor and one and grows with the mean; the correction scales "
    "with the stresses, works elementwise and refuses other detail factors "
    "with ValueError.",
    ["inputs"], "all means and amplitudes, both detail factors",
    "tests check tabulated values", [MS],
    [("dnvgl_mean_stress_correction", MS)],
)
prop(
    "C21", "Walker and SWT corrections give the equivalent reversed range",
    "The Walker correction returns max-stress to the (1-gamma) times "
    "amplitude to the gamma for every cycle with positive maximum and, for "
    "gamma strictly between 0 and 1, zero for the others, and SWT is Walker "
    "with gamma 0.5. A zero-mean cycle keeps its amplitude, a higher mean "
    "never gives a lower result, and the result scales linearly with the "
    "stresses.",
    ["inputs"], "all means and amplitudes, gammas of the bounded grid",
    "tests check tabulated values", [MS],
    [("walker_mean_stress_correction", MS),
     ("swt_mean_stress_correction", MS)],
)
prop(
    "C22", "Correcting a cycle count changes ranges once and nothing else",
    "Mean stress correction of a cycle count replaces the ranges by the "
    "chosen correction of its (resolved) cycles, sets the means to half the "
    "corrected range (DNVGL) or zero (Walker, SWT), keeps counts, unit, "
    "bins, timestamp and small cycles, marks the count as corrected, and "
    "applied again leaves it as it is. With pulsating load enforced a count "
    "whose means are all zero is corrected as if every mean were the "
    "amplitude; unknown corrections and zero-mean counts without it are "
    "refused with ValueError, and the original is never modified.",
    ["inputs", "histories", "configurations"],
    "all cycle counts with a bounded number of cycles, all corrections and "
    "flags, sequences of corrections",
    "tests apply each correction once to one history", [CC, MS],
    [("mean_stress_correction", CC), ("solve_lffd", CC)],
)
prop(
    "C23", "A Paris curve gives growth of its governing segment and inverts",
    "Between threshold and critical value the growth rate is intercept "
    "times SIF to the slope of the segment between whose knees the SIF "
    "lies, zero below the threshold and infinite above the critical value, "
    "and it never decreases with the SIF. The SIF for a growth rate inverts "
    "it on every segment (threshold and critical value for rates beyond the "
    "ends), and knee points lie on both neighbouring segments. Negative "
    "inputs and knees out of order are refused with AssertionError.",
    ["inputs", "configurations"],
    "all curves with up to three segments with increasing knees, all SIFs",
    "tests evaluate a few standard curves", [CG],
    [("get_growth_rate", CG), ("get_sif", CG), ("get_knee_sif", CG),
     ("get_knee_growth_rate", CG)],
)
prop(
    "C24", "Crack growth integrates the Paris law cycle by cycle",
    "The depth reported for each applied block is the depth before it, "
    "starting from the initial depth; the next one adds the number of "
    "cycles times the growth rate at the stress intensity of that block's "
    "range, depth and geometry factor. Depth never decreases, does not grow "
    "below the threshold, and once the critical intensity, the full "
    "thickness or a tenfold growth within one block is reached the crack is "
    "reported as failed with the cycles done so far and the histories cut "
    "at that block. All reported histories have matching lengths, and table "
    "rows carry the values of their last block, or NaN when not completed.",
    ["inputs", "histories"],
    "all load histories with a bounded number of cycles, one- and two-segment "
    "curves, infinite surface",
    "the recurrence and its stopping rule depend on the whole history",
    [DG, CG, GG], [("CalcCrackGrowth", DG), ("get_crack_growth", DG),
                   ("cg.calc_growth", DG)],
)
prop(
    "C25", "Geometries reject impossible dimensions, factors follow the net section",
    "Building a crack geometry succeeds exactly when all dimensions are "
    "positive, the wall is thinner than the radius, the initial crack is "
    "shallower than the wall and the crack position is known, and raises a "
    "ValidationError otherwise. The hollow cylinder geometry factor is the "
    "stress at the reference point of the cracked section over the nominal "
    "one while the crack is shallower than the wall and zero from then on, "
    "and depends only on ratios of dimensions.",
    ["inputs", "configurations"], "all dimensions within the bounds",
    "tests use a few tubes", [GC, GG],
    [("HollowCylinder", GC), ("Cylinder", GC), ("f_hol_cyl_01", GC),
     ("InfiniteSurface", GG)],
)
prop(
    "C26", "Histograms map every point to the bin that contains it",
    "make_histogram() counts every value inside the edges exactly once with "
    "its weight (normalised to unit area when a density is asked for), bins "
    "given by number span the data or the given range, and map_hist() and "
    "xy_hist2d() give each point the content of its own bin, NaN outside "
    "the edges. Points come back in their order or sorted by content as "
    "requested, with none lost or invented. Unknown modes and mismatched "
    "lengths are refused with ValueError.",
    ["inputs", "configurations"],
    "all point sets with a bounded number of points, bounded bins",
    "tests count a few values away from the edges", [HI],
    [("make_histogram", HI), ("map_hist", HI), ("xy_hist2d", HI)],
)
prop(
    "C27", "Aggregating cycle counts over time keeps every cycle and damage",
    "Aggregating a table of cycle counts by a period yields per period "
    "exactly the cycles of its rows, with the residuals of a sum of several "
    "counts resolved, skips missing cells and gives a missing value for "
    "periods holding none; other columns are averaged. The aggregated "
    "damage of a period is the damage of that period's count for every "
    "given S-N curve in the order given, and zero for a missing one.",
    ["inputs", "histories"],
    "all tables with a bounded number of rows and cycle values",
    "tests aggregate one random year", [CU],
    [("aggregate_cc", CU), ("calc_aggregated_damage", CU)],
)
prop(
    "C28", "Analysis functions never modify their inputs",
    "Counting, binning, exporting, adding, scaling, resolving, correcting "
    "and damage functions leave the arrays, lists, curves and cycle counts "
    "handed to them, and those cycle counts' later results, exactly as they "
    "were; editing an export or a table does not alter the count it came "
    "from. Outside this are the result columns that table accessors add to "
    "their table and the defaults that from_rainflow adds to its "
    "dictionary.",
    ["inputs", "histories"],
    "all cycle counts with a bounded number of cycles, all sequences of two "
    "operations",
    "tests rarely look at the inputs after the call", [CC, RF, HI, UT, SL, MS],
    [("CycleCount", CC), ("rainflow", RF), ("rainflow_binner", HI)],
)
prop(
    "C29", "Cycle counts are equal exactly when all they hold is equal",
    "Two cycle counts or curves compare equal when built from equal data "
    "and unequal as soon as any cycle, count, mean, setting, residual, "
    "slope, intercept or colour differs. Equality is reflexive and "
    "symmetric, also when one side has no residuals, and comparing with "
    "another type never gives equality.",
    ["inputs"], "all pairs of cycle counts and curves with bounded contents",
    "tests compare a few instances", [CC, UT, SN, CG],
    [("CycleCount.__eq__", CC), ("compare", UT), ("SNCurve.__eq__", SN)],
)
prop(
    "C30", "Stored cycle counts are read back class by class",
    "Reading a stored cycle count creates for every non-zero histogram "
    "entry one row carrying its count at the class's centre (lower bound "
    "plus index plus one half widths) in range and, for the mean-resolved "
    "format, mean, for every large cycle one full cycle and for every "
    "residual one half cycle. Old and new key names give the same count, "
    "the legacy format has zero means, conflicting or unknown keys are "
    "refused with KeyError and an empty record with ValueError.",
    ["inputs", "configurations"],
    "all stored dictionaries with a bounded number of classes and entries",
    "tests read two fixed files", [CC],
    [("from_rainflow", CC), ("_build_input_data_from_json", CC),
     ("_assess_json_keys", CC)],
)
prop(
    "C31", "Generated test signals respect range, sampling and length",
    "Sampled time starts at the requested start, is evenly spaced by the "
    "inverse of the sampling frequency and covers the requested duration "
    "without exceeding it; random data have one value per sample, repeat "
    "for the same seed, attain their minimum exactly and span exactly the "
    "requested range with the shape of the draws, whatever the draws. "
    "Negative times, non-positive frequencies and durations below one "
    "sampling period are refused with ValueError.",
    ["inputs", "configurations"],
    "all draws of the random generator for a bounded number of samples, all "
    "ranges", "tests draw a few seeds", [TE],
    [("get_sampled_time", TE), ("get_random_data", TE)],
)
prop(
    "C32", "Gassner equivalents reproduce the shape of the spectrum",
    "The shift factor of each cycle of a load spectrum is its share of the "
    "total count times its amplitude relative to the largest one, to the "
    "power of the slope of the S-N curve: it lies between zero and one, the "
    "sum over the spectrum is at most one, and exactly one for constant "
    "amplitude. It is unchanged when all stresses are scaled or all counts "
    "multiplied; curves with more than one slope are refused with "
    "AssertionError and incomplete or already processed tables with "
    "AttributeError.",
    ["inputs"], "all spectra with a bounded number of cycles",
    "tests do not vary the spectrum", [SL], [("Gassner.g", SL)],
)

prop(
    "C33", "Values are checked against the knees of a curve",
    "Handing values to the knee functions of an S-N or Paris curve verifies "
    "them: one value per knee (a single number for one knee), numbers of "
    "cycles for an S-N curve and SIFs for a Paris curve, is accepted when "
    "what it stands for (cycles or stress, SIF or growth rate) agrees with "
    "the respective knee in the requested number of significant digits, two "
    "by default, and refused with AssertionError when any of them differs by "
    "more than the last requested digit. Another number of values, or any "
    "value for a curve without knees, is refused with ValueError. An accepted "
    "check returns the same knees as without values.",
    ["inputs"], "all curves with slopes of a grid and up to three segments, "
    "all values around the knees",
    "tests check a few values on a few curves", [SN, CG],
    [("SNCurve.get_knee_stress", SN), ("SNCurve.get_knee_cycles", SN),
     ("ParisCurve.get_knee_sif", CG),
     ("ParisCurve.get_knee_growth_rate", CG)],
)

prop(
    "C34", "Plots of material curves show the curve itself",
    "Every point drawn by the plot and plotly methods of an S-N curve is a "
    "number of cycles with the curve's own stress, in ascending order, with "
    "all knees and the endurance among them; the plot of a Paris curve shows "
    "SIFs with the curve's own growth rate, runs from the threshold to the "
    "critical value where given and contains the knees. Measured data handed "
    "over as numbers, lists or arrays are drawn unchanged as a second line "
    "under their own name, and refused with ValueError when their lengths "
    "differ. The given figure and axes are used and the axis names the unit.",
    ["inputs"], "all curves with up to three segments of a slope grid",
    "plotting is not tested at all", [SN, CG, UT],
    [("SNCurve.plot", SN), ("SNCurve.plotly", SN), ("ParisCurve.plot", CG),
     ("_sn_curve_data_points", SN), ("_paris_curve_data_points", CG),
     ("make_axes", UT)],
)

prop(
    "C35", "Plots of cycle counts and damage show what they name",
    "The histogram plot of a cycle count draws one point per full and half "
    "cycle at its minimum and maximum (or mean and range) stress, coloured "
    "by the number of points in its bin, and the count plots one point per "
    "row at its count, or cumulated count of the rows with at least that "
    "range, and range. The residual plot draws the residual sequence and its "
    "own residuals at their places, the aggregated one a line per period, "
    "and the damage plot each row's count, range and damage. Plots use the "
    "given figure and axes, refuse unknown types with ValueError, alter "
    "nothing, and a mean stress correction gives the same ranges with its "
    "plot, which shows the factor or corrected range of every cycle.",
    ["inputs"], "all cycle counts with a bounded number of rows",
    "plotting is not tested at all", [CC, CU, SL, MS, HI],
    [("CycleCount.plot_histogram", CC),
     ("CycleCount.plot_residuals_sequence", CC),
     ("plot_aggregated_residuals", CU),
     ("PalmgrenMiner.plot_histogram", SL)],
)

prop(
    "C36", "Damage accessors take complete tables and only add columns",
    "Evaluating a table through the Palmgren-Miner, Gassner or crack growth "
    "accessor, one or several of them in any order, adds its result columns "
    "and leaves rows, their labels and order, and all existing columns as "
    "they were. A table lacking counts, means or ranges, or one that already "
    "carries the results, is refused with AttributeError and left as it was.",
    ["inputs"], "all tables with a bounded number of rows",
    "tests evaluate one default table", [SL, DG],
    [("PalmgrenMiner", SL), ("Gassner", SL), ("CrackGrowth", DG)],
)

prop(
    "C37", "Table and summary of a cycle count state what it holds",
    "to_df() gives one row per cycle with its count, mean and range in order, "
    "and carries the count's own name, unit, times, residual sequence, small "
    "cycles, stress concentration factor and resolved and corrected state. "
    "The summary shown in notebooks states the largest range, the largest "
    "range of a full cycle (nothing when there is none above the lower bin "
    "bound), the numbers of full, half and small cycles, the factor and the "
    "state. Neither alters the cycle count.",
    ["inputs"], "all cycle counts with a bounded number of rows",
    "tests never look at the summary and at one table", [CC],
    [("CycleCount.to_df", CC), ("CycleCount._repr_html_", CC)],
)

prop(
    "C38", "Exported cycle counts can be stored as JSON",
    "as_dict() returns nothing but dictionaries with text keys, lists and "
    "plain numbers, in the mean-resolved and the legacy format, so that "
    "writing it as JSON works and reading it back gives the same dictionary. "
    "This holds for cycle counts from time series, sums, scaled, resolved and "
    "corrected counts and for counts read back from an export, whether bin "
    "settings are whole numbers or not.",
    ["inputs"], "all cycle counts with a bounded number of rows",
    "tests compare a few exports with dictionaries, never with JSON",
    [CC, HI], [("CycleCount.as_dict", CC), ("_build_binned_dict", HI),
               ("_handling_different_bins_in_sum", CC)],
)

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            n = p["statement"].count(". ") + 1
            assert n <= 3, (p["id"], n)
            f.write(json.dumps(p) + "\n")
    print(len(P))
