"""P20: cycle-comparison features are the statistics of the cycles they name."""
import copy
import numpy as np
from .feat import *

BOUNDS = {"all": "two compared cycles among 3 with 2-3 rows per charge and discharge step (one value may be missing); any order and "
                 "subset of the statistics; diagnostic runs of 2-3 visits of each type plus a final diagnostic and empty steps; "
                 "summaries of 5-6 cycles with prediction cycles 1..5; every measured value symbolic"}
OUTSIDE = ("log10, skewness and kurtosis are uninterpreted functions (equal arguments, equal options); compared steps with different "
           "numbers of rows; missing values inside the delta Q curve")
ASSUMPTIONS = []

ALL = ["var", "min", "mean", "skew", "kurtosis", "abs", "square"]
ORDERS = [ALL, ALL[::-1], ["square"], ["min", "var"], ["kurtosis", "skew", "mean"]]
QUANT = [("charging_capacity", "charge", "charge_capacity"), ("discharging_capacity", "discharge", "discharge_capacity"),
         ("charging_energy", "charge", "charge_energy"), ("discharging_energy", "discharge", "discharge_energy")]
COLS = [q[2] for q in QUANT]


def want_stats(c, f, names, quantity, new, old):
    diff = [b - a for a, b in zip(old, new) if not (is_nan(a) or is_nan(b))]
    st = stats_of(diff)
    for s in names:
        n = f"{s}_{quantity}"
        c.require(f"{n} present", n in f.columns)
        if n in f.columns:
            c.require(n, logclose(f[n].iloc[0], log10(st[s])))


def cycle_stats(c):
    from beep.features.core import CycleSummaryStats
    k = c.params["rows"]
    cycles = [3, 4, 9]
    comp = c.choice("cycles", [[3, 9], [9, 3], [4, 9], [3, 5]])
    names = c.choice("statistics", ORDERS[:c.params["orders"]])
    swap = c.choice("swap", [False, True]) if c.params["orders"] > 2 else False
    rows = []
    for cy in cycles:
        steps = ["charge", "discharge"] if not swap else ["discharge", "charge"]
        for st in steps:
            for i in range(k):
                r = {"cycle_index": cy, "step_type": st}
                for q in COLS:
                    r[q] = c.real(f"{q}_{cy}_{st}_{i}", 0, 5)
                rows.append(r)
    hole = c.choice("missing", [None] + COLS)
    if hole:
        late = c.choice("missing_in", [9, 3])
        rows[[i for i, r in enumerate(rows) if r["cycle_index"] == late and hole.startswith(r["step_type"])][-1]][hole] = float("nan")
    df = frame(c, {h: [r[h] for r in rows] for h in rows[0]})
    dp = Datapath(structured_data=df)
    unchanged = keep(c, dp)
    hp = {"cycle_comp_num": list(comp), "statistics": list(names)}
    f = CycleSummaryStats(dp, copy.deepcopy(hp))
    have = all(x in cycles for x in comp)
    c.require("valid exactly when both cycles have data", bool(f.validate()[0]) == have)
    if not have:
        c.cover("absent")
        return
    f.create_features()
    X = f.features
    c.require("one row, one column per statistic and quantity", len(X) == 1 and len(X.columns) == 4 * len(names)
              and len(set(X.columns)) == 4 * len(names))
    for q, st, colname in QUANT:
        a = [r[colname] for r in rows if r["cycle_index"] == comp[0] and r["step_type"] == st]
        b = [r[colname] for r in rows if r["cycle_index"] == comp[1] and r["step_type"] == st]
        want_stats(c, X, names, q, b, a)
    unchanged()
    c.require("hyperparameters kept", f.hyperparameters == hp)
    c.cover("compared")


def required_columns(c):
    from beep.features.core import CycleSummaryStats
    miss = c.choice("missing", [None] + COLS)
    df = frame(c, {h: [1.0, 2.0] for h in COLS if h != miss})
    df["cycle_index"] = [10, 100]
    c.require("refused without a column", bool(CycleSummaryStats(Datapath(structured_data=df)).validate()[0]) == (miss is None))
    r, _ = raises(ValueError, lambda: CycleSummaryStats(Datapath(structured_data=df), {"cycle_comp_num": [10, 100], "statistics": ["var", "nope"]}
                                                        ).get_summary_statistics([1.0, 2.0]))
    c.require("unknown statistics are refused", r)
    c.cover("reached")


TYPES = ["rpt_0.2C", "rpt_1C", "rpt_2C"]


def diag_run(c, k, visits, ctype, symcols):
    """rows of a diagnostic run; the values of the studied type are symbolic"""
    rows, cyc, t = [], 2, 0.0
    for v in range(visits):
        for ty in TYPES:
            for si, (st, sign) in enumerate((("charge", 1), ("discharge", -1))):
                for i in range(k):
                    r = {"cycle_index": cyc, "cycle_type": ty, "step_index": 10 * v + 2 * TYPES.index(ty) + si, "step_index_counter": si + 1,
                         "test_time": t, "current": sign * 1.0}
                    t += 10.0
                    for q in COLS + ["charge_dQdV", "discharge_dQdV"]:
                        r[q] = c.real(f"{q}_{v}_{ty}_{st}_{i}", 0, 5) if ty == ctype and q in symcols else float(i + v)
                    rows.append(r)
            cyc += 1
        cyc += 20
    return rows


def diag_stats(c):
    from beep.features.core import DiagnosticSummaryStats
    k, visits = c.params["rows"], c.params["visits"]
    ctype = c.choice("type", TYPES)
    pos = c.choice("positions", [[0, 1], [1, 0]] + ([[0, 2], [2, 1], [0, -1]] if visits > 2 else []))
    names = c.choice("statistics", ORDERS[:c.params["orders"]])
    symcols = c.choice("columns", [["charge_capacity", "discharge_capacity"], ["charge_energy", "discharge_energy"], ["charge_dQdV", "discharge_dQdV"]])
    rows = diag_run(c, k, visits, ctype, symcols)
    used = list(rows)
    noise = c.choice("noise", ["none", "final", "empty"])
    if noise == "final":               # a final diagnostic recorded with the number of the first
        used = list(rows)
        first = [r for r in rows if r["cycle_type"] == ctype][0]["cycle_index"]
        extra = [dict(r, test_time=2e6 + i) for i, r in enumerate(rows[:6 * k]) if r["cycle_index"] == first]
        rows = rows + extra
    elif noise == "empty":             # a step with no times
        first = [r for r in rows if r["cycle_type"] == ctype][0]
        rows = rows + [dict(first, step_index=77, test_time=float("nan"), current=0.0) for _ in range(k)]
    data = frame(c, {h: [r[h] for r in rows] for h in rows[0]})
    summ = []
    for r in used:
        if not any(s["cycle_index"] == r["cycle_index"] for s in summ):
            s = {"cycle_index": r["cycle_index"], "cycle_type": r["cycle_type"]}
            for q in COLS:
                s[q] = c.real(f"sum_{q}_{r['cycle_index']}", 0.5, 5) if symcols[0] == q or symcols[-1] == q else 1.0 + 0.5 * len(summ)
            summ.append(s)
    summary = frame(c, {h: [s[h] for s in summ] for h in summ[0]})
    with scratch(c) as d:
        d.write("PreDiag_parameters.csv", "seq_num,capacity_nominal\n1,4.84\n2,1\n")
        dp = Datapath(diagnostic_data=data, diagnostic_summary=summary)
        unchanged = keep(c, dp)
        hp = {"test_time_filter_sec": 1000000, "cycle_index_filter": 6, "diagnostic_cycle_type": ctype, "diag_pos_list": list(pos),
              "statistics": list(names), "parameters_path": d.root}
        f = DiagnosticSummaryStats(dp, copy.deepcopy(hp))
        c.require("valid", bool(f.validate()[0]))
        f.create_features()
    X = f.features
    c.require("one row, all columns", len(X) == 1 and len(X.columns) == 6 * len(names) + 12 and len(set(X.columns)) == len(X.columns))
    cyc = []
    for r in used:
        if r["cycle_type"] == ctype and r["cycle_index"] not in cyc:
            cyc.append(r["cycle_index"])
    for q, st, colname in QUANT + [("charging_dQdV", "charge", "charge_dQdV"), ("discharging_dQdV", "discharge", "discharge_dQdV")]:
        sel = lambda cy: [r[colname] for r in used if r["cycle_index"] == cy and (r["current"] > 0) == (st == "charge")]
        if colname in symcols:
            want_stats(c, X, names, q, sel(cyc[pos[1]]), sel(cyc[pos[0]]))
    for ty in TYPES:
        own = [s for s in summ if s["cycle_type"] == ty]
        for q in COLS:
            n = f"diag_sum_diff_{pos[0]}_{pos[1]}_{ty}{q}"
            c.require(f"{n} present", n in X.columns)
            if n in X.columns:
                a, b = own[pos[0]][q], own[pos[1]][q]
                c.require(f"relative change {ty} {q}", close(X[n].iloc[0], (b - a) / a))
    unchanged()
    c.cover("compared")


def diag_valid(c):
    from beep.features.core import DiagnosticSummaryStats
    n = c.choice("visits", [0, 1, 2, 3])
    pos = c.choice("positions", [[0, 1], [2, 0]])
    kind = c.choice("kind", ["table", "none", "empty"])
    ty = c.choice("type", ["rpt_1C", "reset"])
    s = frame(c, {"cycle_index": [2 + 20 * i for i in range(n)] + [3], "cycle_type": ["rpt_1C"] * n + ["hppc"]})
    dp = Datapath(diagnostic_summary=s if kind == "table" else None if kind == "none" else s.iloc[:0], diagnostic_data=s)
    f = DiagnosticSummaryStats(dp, dict(DiagnosticSummaryStats.DEFAULT_HYPERPARAMETERS, diagnostic_cycle_type=ty, diag_pos_list=pos))
    c.require("valid exactly with enough visits", bool(f.validate()[0]) == (kind == "table" and ty == "rpt_1C" and n > max(pos)))
    c.cover("reached")


def deltaq(c):
    from beep.features.core import DeltaQFastCharge
    n, k = c.params["cycles"], c.params["rows"]
    init, mid, final = c.choice("cycles", [(2, 3, 4), (1, 2, 4), (2, 3, 5)])
    nom = c.choice("nominal", [2, 3])
    typed = c.choice("step_type", [True, False])
    curve = c.choice("curve", ["present", "absent"])
    S = {q: [c.real(f"{q}{i}", 0.5, 5) for i in range(n)] for q in
         ("discharge_capacity", "time_temperature_integrated", "charge_duration", "temperature_maximum", "temperature_minimum")}
    S["dc_internal_resistance"] = [c.real(f"ir{i}", 0, 1) if i in (1, final - 1) else 0.25 + i * 0.125 for i in range(n)]
    S["cycle_index"] = list(range(n))
    rows = []
    for cy in range(n):
        if curve == "absent" and cy in (init - 1, final - 1):
            continue
        for i in range(k):
            rows.append({"cycle_index": cy, "step_type": "discharge", "discharge_capacity": c.real(f"q{cy}_{i}", 0, 5)})
        if typed:
            rows.append({"cycle_index": cy, "step_type": "charge", "discharge_capacity": 9.0})
    df = frame(c, {h: [r[h] for r in rows] for h in rows[0] if typed or h != "step_type"})
    dp = Datapath(structured_summary=frame(c, S), structured_data=df)
    unchanged = keep(c, dp)
    hp = {"init_pred_cycle": init, "mid_pred_cycle": mid, "final_pred_cycle": final, "n_nominal_cycles": nom}
    f = DeltaQFastCharge(dp, dict(hp))
    f.create_features()
    X = f.features
    c.require("hyperparameters kept", f.hyperparameters == hp)
    c.require("one row of 21 features", X.shape == (1, 21) and len(set(X.columns)) == 21)
    Q = S["discharge_capacity"]

    def fit(lo):
        xs, ys = list(range(lo, final)), Q[lo:final]
        mx, my = sum(xs) / len(xs), sum(ys) / len(ys)
        m = sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sum((x - mx) ** 2 for x in xs)
        return m, my - m * mx
    m1, b1 = fit(1)
    m2, b2 = fit(mid - 1)
    srt = Q[:nom]
    med = (srt[0] + srt[1]) / 2 if nom == 2 else sum(srt) - smax(srt) - smin(srt)
    IR = S["dc_internal_resistance"]
    want = {"discharge_capacity_cycle_2": Q[1], "max_discharge_capacity_difference": smax([q - Q[1] for q in Q[:final]]),
            "discharge_capacity_cycle_100": Q[final - 1], "integrated_time_temperature_cycles_1:100": sum(S["time_temperature_integrated"][:final]),
            "charge_time_cycles_1:5": sum(S["charge_duration"][1:6]) / len(S["charge_duration"][1:6]),
            "max_temperature_cycles_1:100": smax(S["temperature_maximum"][1:final]), "min_temperature_cycles_1:100": smin(S["temperature_minimum"][1:final]),
            "slope_discharge_capacity_cycle_number_2:100": m1, "intercept_discharge_capacity_cycle_number_2:100": b1,
            "slope_discharge_capacity_cycle_number_91:100": m2, "intercept_discharge_capacity_cycle_number_91:100": b2,
            "min_internal_resistance_cycles_2:100": smin([ite(x == 0, 99.0, x) for x in IR[1:final]]),
            "internal_resistance_cycle_2": IR[1], "internal_resistance_difference_cycles_2:100": IR[final - 1] - IR[1],
            "nominal_capacity_by_median": med}
    for n_, v in want.items():
        c.require(n_ + " present", n_ in X.columns)
        if n_ in X.columns:
            c.require(n_, close(X[n_].iloc[0], v, 1e-7))
    val = lambda cy: [r["discharge_capacity"] for r in rows if r["cycle_index"] == cy and r["step_type"] == "discharge"]
    diff = [b - a for a, b in zip(val(init - 1), val(final - 1))]
    names = ["min", "mean", "variance", "skew", "kurtosis", "first"]
    if diff:
        st = stats_of(diff)
        a = np.array(diff, dtype=object if patches.has_sym(diff) else float)
        w = [st["min"], st["mean"], st["var"], st["skew"], scipy.stats.kurtosis(a), diff[0]]
    for i, s in enumerate(names):
        lab = f"abs_{s}_discharge_capacity_difference_cycles_2:100"
        c.require(lab + " present", lab in X.columns)
        if lab in X.columns:
            c.require(lab, logclose(X[lab].iloc[0], log10(w[i])) if diff else is_nan(X[lab].iloc[0]))
    unchanged()
    c.cover(curve)


def deltaq_valid(c):
    from beep.features.core import DeltaQFastCharge
    lo = c.choice("first", [0, 4, 12])
    n = c.choice("cycles", [8, 15, 25])
    init, mid, final = c.int("init", 1, 30), c.int("mid", 1, 30), c.int("final", 1, 30)
    cols = c.choice("columns", ["both", "summary", "data"])
    s = pd.DataFrame({"cycle_index": range(lo, lo + n), "x": 1.0}, index=range(lo, lo + n))
    t = pd.DataFrame({"cycle_index": range(lo, lo + n), "x": 1.0})
    if cols == "summary":
        t = t.drop(columns="cycle_index")
    if cols == "data":
        s = s.drop(columns="cycle_index")
    f = DeltaQFastCharge(Datapath(structured_summary=s, structured_data=t),
                         {"init_pred_cycle": init, "mid_pred_cycle": mid, "final_pred_cycle": final, "n_nominal_cycles": 40})
    ok = bool(f.validate()[0])
    c.require("valid exactly when the cycles are covered and ordered",
              all_of([lo + n - 1 > final, lo <= init, mid > 10, final > mid, cols == "both"]) == ok)
    c.cover("valid" if ok else "invalid")


def trajectory(c):
    from beep.features.core import TrajectoryFastCharge
    n = c.params["cycles"]
    q = [c.real(f"q{i}", 0.5, 1.5) for i in range(n)]
    s = frame(c, {"cycle_index": list(range(n)), "discharge_capacity": q})
    dp = make_datapath(pd.DataFrame({"x": [1.0]}))
    dp.structured_summary, dp.structured_data = s, s
    hi, lo, step = c.choice("thresholds", [(0.98, 0.78, 0.03), (0.95, 0.8, 0.15), (0.9, 0.9, 0.1)])
    before = snapshot(s)
    f = TrajectoryFastCharge(dp, {"thresh_max_cap": hi, "thresh_min_cap": lo, "interval_cap": step})
    ok = bool(f.validate()[0])
    c.require("valid exactly when the capacity has fallen enough", (smin(q) / smax(q) < hi) == ok)
    f.create_features()
    want = dp.capacities_to_cycles(hi, lo, step)
    c.require("columns", list(f.features.columns) == list(want.columns) and len(f.features) == 1)
    c.require("the cycles at which the capacity falls below each level",
              all_of([same_cell(a, b) for a, b in zip(f.features.iloc[0].values, want.iloc[0].values)]))
    for l, t in same_frame(dp.structured_summary, before):
        c.require(f"summary: {l}", t)
    c.cover("valid" if ok else "invalid")


def harnesses(tier):
    deep = tier == "thorough"
    P = feature_patches
    H = [dict(name="cycle_stats", fn=cycle_stats, params=dict(rows=2, orders=5 if deep else 4), patches=P, weight=4),
         dict(name="required_columns", fn=required_columns, params={}, patches=P, weight=1),
         dict(name="diag_stats", fn=diag_stats, params=dict(rows=2, visits=2, orders=2), patches=P, weight=5),
         dict(name="diag_valid", fn=diag_valid, params={}, patches=P, weight=1),
         dict(name="deltaq", fn=deltaq, params=dict(cycles=6, rows=2), patches=P, weight=4),
         dict(name="deltaq_valid", fn=deltaq_valid, params={}, patches=P, weight=1),
         dict(name="trajectory", fn=trajectory, params=dict(cycles=3), patches=P, weight=2)]
    if deep:
        H += [dict(name="cycle_stats_3", fn=cycle_stats, params=dict(rows=3, orders=2), patches=P, weight=6),
              dict(name="diag_stats_3", fn=diag_stats, params=dict(rows=2, visits=3, orders=3), patches=P, weight=8)]
    return H
