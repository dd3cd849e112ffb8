"""P21: degradation targets and exclusion criteria follow the diagnostic and regular cycles."""
import calendar
import copy
import datetime
import numpy as np
from .feat import *

GRID = 4
BOUNDS = {"all": "runs of up to 4 diagnostics of 2 types with up to 8 regular cycles in several layouts; every capacity, energy and fraction "
                 f"symbolic (one axis at a time for the threshold search); the search grid of 1000 points coarsened to {GRID} symbolically "
                 "(replays use the real one); end-of-life, throughput, full-cycle and early-CV criteria with symbolic values and cutoffs"}
OUTSIDE = ("fractions that rise at the end when extrapolating; runs without a gap between regular cycles; negative capacities; charges "
           "without a constant-voltage part")
ASSUMPTIONS = ["parameter files name each project once"]

ISO = ["2019-12-18T04:01:35+00:00", "2019-12-19T06:17:10+00:00", "2020-02-29T23:59:59+00:00", "2021-01-01T00:00:00+00:00",
       "2021-07-01T00:00:00+00:00", "2022-07-01T00:00:00+00:00", "2022-07-02T00:00:00+00:00", "2022-07-03T00:00:00+00:00"]
TYPES = ["reset", "rpt_0.2C", "rpt_1C"]
# (diagnostic cycles as (cycle, type), regular cycles)
LAYOUTS = [([(1, 0), (2, 1), (3, 2), (6, 0), (7, 1), (8, 2)], [0, 4, 5, 9, 10]),
           ([(0, 0), (1, 1), (5, 0), (6, 1), (8, 2)], [2, 3, 4, 7, 9]),
           ([(1, 0), (4, 1), (7, 1), (8, 1)], [0, 2, 3, 5, 6]),
           ([(1, 1), (4, 1)], [2, 3, 5]),
           ([(1, 1), (4, 1), (7, 1), (8, 2)], [0, 2, 3, 5, 6, 9])]
PARAMS = ("project_name,seq_num,diagnostic_start_cycle,diagnostic_interval,capacity_nominal,charge_constant_current_1,charge_constant_current_2\n"
          "PreDiag,1,30,100,%s,%s,%s\nPreDiag,2,31,200,9,1,2\n")


def epoch(s):
    return calendar.timegm(datetime.datetime.fromisoformat(s).utctimetuple()) if s else float("nan")


def run(c, layout, names, sym=("discharge_energy",), overlap=False):
    diag, regular = layout
    reg = list(regular) + ([d for d, _ in diag] if overlap else [])
    reg.sort()

    def vals(tag, idx, names):
        return {q: [c.real(f"{tag}_{q}{i}", 0.25, 5) if q in sym else 1.0 + 0.25 * j for j, i in enumerate(idx)] for q in names}
    D = dict(cycle_index=[i for i, _ in diag], cycle_type=[TYPES[t] for _, t in diag],
             date_time_iso=[ISO[k % len(ISO)] for k in range(len(diag))], **vals("d", [i for i, _ in diag], names))
    R = dict(cycle_index=reg, **vals("r", reg, names))
    return D, R


def want_nx(D, R, metric, ctype):
    q = "discharge_energy" if "energy" in metric else "discharge_capacity"
    reg = [(i, v) for i, v in zip(R["cycle_index"], R[q]) if i != 0 and i not in D["cycle_index"]]
    top = max(i for i, _ in reg)
    gap = next(b for (a, _), (b, _) in zip(reg, reg[1:]) if b - a > 1)
    first = sum(v for i, v in reg if i < gap)
    rows = []
    for k, (i, t) in enumerate(zip(D["cycle_index"], D["cycle_type"])):
        if t == ctype and i <= top:
            rows.append({"cycle_index": i, "fractional_metric": D[metric][k] / D[metric][0], "initial_regular_throughput": first,
                         "normalized_regular_throughput": sum([v for j, v in reg if j < i]) / first,
                         "normalized_diagnostic_throughput": sum([v for j, v in zip(D["cycle_index"], D[q]) if j < i]) / first,
                         "epoch_time": epoch(D["date_time_iso"][k])})
    return rows


NX = ["cycle_index", "fractional_metric", "initial_regular_throughput", "normalized_regular_throughput",
      "normalized_diagnostic_throughput", "diagnostic_start_cycle", "diagnostic_interval", "epoch_time"]


def nx(c):
    from beep.features.featurizer_helpers import get_fractional_quantity_remaining_nx
    layout = c.choice("layout", LAYOUTS)
    metric = c.choice("metric", ["discharge_energy", "discharge_capacity", "charge_energy"])
    ctype = c.choice("type", ["rpt_0.2C", "rpt_1C"])
    name = c.choice("protocol", ["PreDiag_000001.000", "a\\b.c\\PreDiag_000001.000", "/x/y_1/PreDiag_000002.000"])
    names = ["discharge_energy", "discharge_capacity", "charge_energy"]
    D, R = run(c, layout, names, sym=(metric,) if metric != "charge_energy" else ("charge_energy", "discharge_energy"),
               overlap=c.choice("overlap", [False, True]))
    if c.choice("missing_time", [False, True]):
        D["date_time_iso"][-1] = None
    rows = want_nx(D, R, metric, ctype)
    if not rows:
        return
    dp = Datapath(protocol=name, diagnostic_summary=frame(c, D), structured_summary=frame(c, R))
    unchanged = keep(c, dp)
    with scratch(c) as d:
        d.write("PreDiag_parameters.csv", PARAMS % ("4.84", "1", "2"))
        X = get_fractional_quantity_remaining_nx(dp, metric, ctype, parameters_path=d.root)
    c.require("columns", list(X.columns) == NX)
    c.require("one row per diagnostic of the type up to the last regular cycle", len(X) == len(rows))
    if len(X) != len(rows) or list(X.columns) != NX:
        return
    second = "000002" in name
    for k, r in enumerate(rows):
        r = dict(r, diagnostic_start_cycle=31 if second else 30, diagnostic_interval=200 if second else 100)
        for h in NX:
            c.require(f"{h} of each diagnostic", close(X[h].iloc[k], r[h], 1e-7))
    unchanged()
    c.cover("rows")


def fraction(c):
    from beep.features.featurizer_helpers import get_fractional_quantity_remaining
    idx = c.choice("cycles", [[1, 2, 101, 102], [1, 100, 101, 300], [150, 151, 152, 400]])
    ty = [c.choice(f"type{i}", ["rpt_0.2C", "rpt_1C"]) for i in range(4)]
    v = [c.real(f"v{i}", 0.25, 5) for i in range(4)]
    dp = Datapath(diagnostic_summary=frame(c, {"cycle_index": idx, "cycle_type": ty, "discharge_energy": v, "other": [1.0] * 4}))
    unchanged = keep(c, dp)
    X = get_fractional_quantity_remaining(dp, "discharge_energy", "rpt_1C")
    want = [(i, x / v[0]) for i, t, x in zip(idx, ty, v) if t == "rpt_1C" and i > 100]
    c.require("columns and rows", list(X.columns) == ["cycle_index", "fractional_metric"] and list(X.cycle_index) == [i for i, _ in want])
    if len(X) == len(want):
        c.require("fractions of the first diagnostic", all_of([close(a, b[1]) for a, b in zip(X.fractional_metric, want)]))
    unchanged()
    c.cover("reached")


def grid(c, lo, hi):
    n = GRID if c.symbolic else 1000
    return [lo + (hi - lo) * k / (n - 1) for k in range(n)]


def line(x, xs, ys):
    """piecewise linear through the points, extended"""
    def seg(i):
        return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    r = seg(len(xs) - 2)
    for i in range(len(xs) - 3, -1, -1):
        r = ite(x <= xs[i + 1], seg(i), r)
    return r


def check_target(c, tag, got, xs, ys, thr, extrapolate):
    crossed = smin(ys) <= thr
    if symbolic(crossed):
        crossed = bool(crossed)
    lo, hi = smin(xs), smax(xs)
    if not crossed:
        y1, y2, x1, x2 = ys[-2], ys[-1], xs[-2], xs[-1]
        hi = (thr - 0.1 - y1) * (x2 - x1) / (y2 - y1) + x1
    g = grid(c, lo, hi)
    dist = lambda x: abs(line(x, xs, ys) - thr)
    c.require(f"{tag}: a point of the range", any_of([close(got, x, 1e-7) for x in g]))
    if c.symbolic:
        c.require(f"{tag}: where the fraction is closest to the threshold",
                  any_of([all_of([close(got, x, 1e-7)] + [dist(x) <= dist(y) + 1e-7 for y in g]) for x in g]))
    else:
        c.require(f"{tag}: where the fraction is closest to the threshold", dist(float(got)) <= min(dist(x) for x in g) + 1e-6)


def featurizer(hp):
    from beep.features.core import DiagnosticProperties
    return DiagnosticProperties(None, hp)


def hyper(**k):
    from beep.features.core import DiagnosticProperties
    return dict(copy.deepcopy(DiagnosticProperties.DEFAULT_HYPERPARAMETERS), **k)


def targets(c):
    """the threshold search; the other type and metric are present and must not matter"""
    from beep.features.base import BEEPFeaturizationError
    n = c.params["n"]
    which = c.params["sym"]
    extra = c.choice("extrapolate", [True, False])
    axes = c.choice("axes", [["normalized_regular_throughput", "cycle_index"], ["cycle_index"], ["cycle_index", "normalized_diagnostic_throughput", "normalized_regular_throughput"]][:c.params["axes"]])
    thr = c.choice("threshold", [0.8, 0.5])
    fr = [1.0] + [c.real(f"y{i}", 0.1, 1.1) if which == "y" else round(1.0 - 0.15 * i, 2) for i in range(1, n)]
    nr = [0.0]
    for i in range(1, n):
        nr.append(nr[-1] + (c.real(f"dx{i}", 0.5, 5) if which == "x" else 1.0 + 0.5 * (i % 2)))
    cyc = [2, 30, 40, 70][:n]
    init = c.real("initial", 1, 50)
    own = [dict(cycle_index=cyc[i], fractional_metric=fr[i], normalized_regular_throughput=nr[i], normalized_diagnostic_throughput=float(i),
                initial_regular_throughput=init, cycle_type="rpt_1C", metric="discharge_energy") for i in range(n)]
    other = [dict(own[i], cycle_type=t, metric=m, fractional_metric=0.3 + 0.1 * i, cycle_index=cyc[i] + 1, initial_regular_throughput=1.0)
             for i in range(2) for t, m in (("rpt_2C", "discharge_energy"), ("rpt_1C", "discharge_capacity"))]
    rows = c.choice("order", [own + other, other + own])
    df = frame(c, {h: [r[h] for r in rows] for h in rows[0]})
    low = smin(fr)
    crossed = bool(low <= thr)
    if not crossed:
        c.assume(fr[-1] < fr[-2] - 0.01)
    f = featurizer(hyper(threshold=thr, interpolation_axes=list(axes), extrapolate_threshold=extra))
    before = snapshot(df)
    r, X = raises((BEEPFeaturizationError,), lambda: f.get_threshold_targets(df))
    col_of = {"normalized_regular_throughput": nr, "cycle_index": [float(x) for x in cyc], "normalized_diagnostic_throughput": [float(i) for i in range(n)]}
    if not crossed and not extra:
        c.require("an uncrossed threshold without extrapolation is an error", r)
        c.cover("uncrossed")
        return
    if r:
        # only when the nearest point is at the origin of an axis
        c.require("refused only when the nearest point of an axis is not positive",
                  any_of([nearest_at_start(c, col_of[a], fr, thr, crossed) for a in axes]))
        c.cover("not positive")
        return
    names = [f"rpt_1Cdischarge_energy{thr}_{a}" for a in axes]
    want = ["initial_regular_throughput"] + names + ([f"rpt_1Cdischarge_energy{thr}_real_regular_throughput"] if "normalized_regular_throughput" in axes else [])
    c.require("columns", sorted(X.columns) == sorted(want) and len(X) == 1)
    if sorted(X.columns) != sorted(want):
        return
    c.require("initial throughput", close(X["initial_regular_throughput"].iloc[0], init))
    for a, nme in zip(axes, names):
        check_target(c, a, X[nme].iloc[0], col_of[a], fr, thr, extra)
    if "normalized_regular_throughput" in axes:
        c.require("real throughput", close(X[want[-1]].iloc[0], X[f"rpt_1Cdischarge_energy{thr}_normalized_regular_throughput"].iloc[0] * init, 1e-6))
    for l, t in same_frame(df, before):
        c.require(f"table: {l}", t)
    c.require("hyperparameters kept", f.hyperparameters["interpolation_axes"] == axes)
    c.cover("crossed" if crossed else "extrapolated")


def nearest_at_start(c, xs, ys, thr, crossed):
    lo, hi = xs[0], xs[-1]
    if not crossed:
        hi = (thr - 0.1 - ys[-2]) * (xs[-1] - xs[-2]) / (ys[-1] - ys[-2]) + xs[-2]
    g = grid(c, lo, hi)
    d = [abs(line(x, xs, ys) - thr) for x in g]
    return any_of([all_of([x <= 1e-9] + [dx <= y + 1e-9 for y in d]) for x, dx in zip(g, d)])


def kinks(c):
    """diagnostics from the first abrupt change on are ignored"""
    cut = c.choice("kink", [-0.2, -0.1])
    y = [1.0, c.real("y1", 0.7, 1), c.real("y2", 0.3, 0.9), c.real("y3", 0.05, 0.6)]
    c.assume(all_of([y[1] < 0.99, y[2] < y[1] - 0.01, y[3] < y[2] - 0.01]))
    d2 = [y[2] - 2 * y[1] + y[0], y[3] - 2 * y[2] + y[1]]
    c.assume(all_of([abs(d2[0] - cut) > 1e-4, abs(d2[1] - cut) > 1e-4]))
    c.assume(d2[0] > cut)                     # at least three diagnostics remain
    cyc = [2, 30, 40, 70]
    df = frame(c, {"cycle_index": cyc, "fractional_metric": y, "normalized_regular_throughput": [1.0, 2.0, 3.0, 5.0],
                   "initial_regular_throughput": [2.0] * 4, "cycle_type": ["rpt_1C"] * 4, "metric": ["discharge_energy"] * 4})
    f = featurizer(hyper(threshold=0.6, interpolation_axes=["cycle_index"], filter_kinks=cut))
    X = f.get_threshold_targets(df)
    n = 3 if bool(d2[1] < cut) else 4
    check_target(c, "cycle_index", X["rpt_1Cdischarge_energy0.6_cycle_index"].iloc[0], [float(x) for x in cyc[:n]], y[:n], 0.6, True)
    c.cover("kink" if n == 3 else "smooth")


def properties(c):
    """end to end: the chosen type and metric of the run decide"""
    from beep.features.core import DiagnosticProperties
    layout = c.choice("layout", [LAYOUTS[0], LAYOUTS[4]])
    metric = c.choice("metric", ["discharge_energy", "discharge_capacity"])
    D, R = run(c, layout, ["discharge_energy", "discharge_capacity"], sym=())
    own = [k for k, t in enumerate(D["cycle_type"]) if t == "rpt_0.2C"]
    D[metric] = [2.0] * len(D[metric])
    v = c.real("last", 0.1, 1.9)
    D[metric][own[-1]] = v
    D[metric][own[0]] = 1.9
    rows = want_nx(D, R, metric, "rpt_0.2C")
    dp = Datapath(diagnostic_summary=frame(c, D), structured_summary=frame(c, R))
    unchanged = keep(c, dp)
    with scratch(c) as d:
        d.write("PreDiag_parameters.csv", PARAMS % ("4.84", "1", "2"))
        hp = hyper(parameters_dir=d.root, metric=metric, cycle_type="rpt_0.2C", interpolation_axes=["normalized_diagnostic_throughput", "cycle_index"], threshold=0.5)
        f = DiagnosticProperties(dp, hp)
        c.require("valid", bool(f.validate()[0]))
        ys = [r["fractional_metric"] for r in rows]
        if not bool(smin(ys) <= 0.5):
            c.assume(ys[-1] < ys[-2] - 0.01)
        f.create_features()
    X = f.features
    for a in ("normalized_diagnostic_throughput", "cycle_index"):
        check_target(c, a, X[f"rpt_0.2C{metric}0.5_{a}"].iloc[0], [r[a] * 1.0 for r in rows], ys, 0.5, True)
    c.require("initial throughput", close(X["initial_regular_throughput"].iloc[0], rows[0]["initial_regular_throughput"]))
    unchanged()
    c.cover("reached")


def exclusion(c):
    from beep.features.core import ExclusionCriteria
    case = c.params["case"]
    D, R = run(c, LAYOUTS[0], ["discharge_capacity", "discharge_energy"], sym=())
    thr = 0.8
    D["discharge_capacity"] = [2.0] * 6
    f1 = c.real("f1", 0.2, 2.5)
    D["discharge_capacity"][4] = f1 * 2.0
    D["discharge_capacity"][1] = (c.real("f0", 0.2, 1.0) if case == "eol" else 1.0) * 2.0
    tp, acc = [], 0.0
    for i in range(len(R["cycle_index"])):
        acc = acc + (c.real(f"tp{i}", 0.5, 5) if case == "throughput" else 2.0)
        tp.append(acc)
    R["charge_throughput"] = list(tp)
    n = c.choice("n", [2, 4, 30]) if case != "cv" else 2
    cut_n, cut_e = (c.real("cut_n", 0, 30), c.real("cut_e", 0, 10)) if case == "throughput" else (1.0, 0.5)
    nominal = c.choice("nominal", ["parameters", "structuring"]) if case == "throughput" else "parameters"
    hole = c.choice("hole", [None, 3, 4]) if case == "throughput" else None
    if hole is not None:
        R["charge_throughput"][hole] = float("nan")
    cc1 = c.choice("cc1", [1.0, 3.0]) if case == "cv" else 1.0
    onset = {}
    rows = []
    for i in R["cycle_index"]:
        v = c.real(f"onset{i}", 2, 98) if case == "cv" and i in (5, 9) else 80.0
        onset[i] = v
        base = 1000.0 * (i + 1)
        # constant voltage from the second charge sample on; the segment starts one sample earlier
        for t, cur, vol, st in ((0.0, 1.0, 3.0, "charge"), (v, 1.0, 4.0, "charge"), (v + 5.0, 1.0, 4.2, "charge"), (v + 40.0, 0.5, 4.2, "charge"),
                                (200.0, -1.0, 3.0, "discharge")):
            rows.append(dict(cycle_index=i, step_type=st, test_time=base + t, current=cur, voltage=vol))
    dp = Datapath(diagnostic_summary=frame(c, D), structured_summary=frame(c, R),
                  structured_data=frame(c, {h: [r[h] for r in rows] for h in rows[0]}),
                  diagnostic_data=pd.DataFrame({"x": [1.0]}),
                  structuring_parameters={"nominal_capacity": 2.5} if nominal == "structuring" else {})
    unchanged = keep(c, dp)
    cutoff = 0.3
    with scratch(c) as d:
        d.write("PreDiag_parameters.csv", PARAMS % ("4.0", str(cc1), "2"))
        f = ExclusionCriteria(dp, {"parameters_dir": d.root, "EOL_conditions": {"cycle_type": "rpt_0.2C", "threshold": thr, "quantity": "discharge_capacity"},
                                   "throughput_first_n_cycles": {"n": n, "cutoff": cut_n}, "equivalent_full_cycles_cutoff": cut_e, "early_CV_cutoff": cutoff})
        c.require("valid", bool(f.validate()[0]))
        f.create_features()
    X = f.features
    c.require("one row", len(X) == 1)
    g = lambda k: X[k].iloc[0]
    tpn = R["charge_throughput"][n] if n < len(tp) else None
    if tpn is not None and is_nan(tpn):
        tpn = 0
    above = False if tpn is None else tpn > cut_n
    if tpn is not None:
        c.require("throughput of the first n cycles", close(g("first_n_cycles_throughput"), tpn))
        c.require("throughput criterion", same_truth(g("is_above_first_n_cycles_throughput"), above))
    fr = [D["discharge_capacity"][1] / 2.0, D["discharge_capacity"][4] / 2.0]
    last = fr[0] if bool(fr[1] > 1) else fr[1]
    c.require("fraction at the end of the test", close(g("fractional_capacity_at_EOT"), last))
    below = bool(last < thr)
    c.require("end of life criterion", same_truth(g("is_below_fractional_capacity_at_EOT"), below))
    eol = (2 if bool(fr[0] < thr) else 7) if below else 7
    k = max(j for j, i in enumerate(R["cycle_index"]) if i <= eol)
    filled = R["charge_throughput"][k] if not is_nan(R["charge_throughput"][k]) else R["charge_throughput"][k - 1]
    efc = filled / (2.5 if nominal == "structuring" else 4.0)
    c.require("equivalent full cycles at the end of life", close(g("equivalent_full_cycles_at_EOL"), efc, 1e-7))
    full = efc > cut_e
    c.require("full cycle criterion", same_truth(g("is_above_equivalent_full_cycles_at_EOL"), full))
    early = any_of([onset_frac(onset[i]) < cutoff for i in R["cycle_index"] if i <= eol]) if cc1 > 2 else False
    if case == "cv" and cc1 > 2:
        c.cover("early", early)
        c.cover("never early", not_(early))
    c.require("early constant voltage criterion", same_truth(g("is_not_early_CV"), not_(early)))
    c.require("included exactly when every criterion holds", same_truth(g("to_include"), all_of([above, below, full, not_(early)])))
    unchanged()
    c.cover("reached")


def onset_frac(v):
    return v / 200.0


def same_truth(a, b):
    a, b = pyval(a), pyval(b)
    if symbolic(a) or symbolic(b):
        return any_of([all_of([a, b]), all_of([not_(a), not_(b)])])
    return bool(a) == bool(b) and not is_nan(a)


def coarse(c_grid=GRID):
    orig = np.linspace
    def linspace(start, stop, num=50, *a, **k):
        cur = np_lin[0]
        return cur(start, stop, c_grid if num == 1000 else num, *a, **k)
    np_lin = [patches.np_linspace(orig)]
    return [(np, "linspace", linspace)]


def pats():
    return feature_patches() + coarse()


def harnesses(tier):
    deep = tier == "thorough"
    H = [dict(name="nx", fn=nx, params={}, patches=pats, weight=4),
         dict(name="fraction", fn=fraction, params={}, patches=pats, weight=2),
         dict(name="targets_y", fn=targets, params=dict(n=3, sym="y", axes=3 if deep else 2), patches=pats, weight=5),
         dict(name="targets_x", fn=targets, params=dict(n=3, sym="x", axes=3 if deep else 2), patches=pats, weight=5),
         dict(name="kinks", fn=kinks, params={}, patches=pats, weight=2),
         dict(name="properties", fn=properties, params={}, patches=pats, weight=3),
         dict(name="exclusion_eol", fn=exclusion, params=dict(case="eol"), patches=pats, weight=3),
         dict(name="exclusion_throughput", fn=exclusion, params=dict(case="throughput"), patches=pats, weight=4),
         dict(name="exclusion_cv", fn=exclusion, params=dict(case="cv"), patches=pats, weight=3)]
    if deep:
        H += [dict(name="targets_y4", fn=targets, params=dict(n=4, sym="y", axes=2), patches=pats, weight=8),
              dict(name="targets_x4", fn=targets, params=dict(n=4, sym="x", axes=2), patches=pats, weight=8)]
    return H
