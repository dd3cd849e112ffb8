"""P22: HPPC features are computed from the pulses, rests and windows they name."""
import copy
import numpy as np
from .feat import *
import beep.features.featurizer_helpers  # noqa: F401  (names patched below)

BOUNDS = {"all": "HPPC cycles of 2-3 state-of-charge windows, each with long rest, discharge pulse, short rest, charge pulse and discharge, "
                 "2-12 samples per step in any time order; currents, voltages, durations and capacities symbolic (times concrete for the "
                 "diffusion fit); up to 3 diagnostics"}
OUTSIDE = ("rests whose last ten voltages differ (known finding); skewness and kurtosis are uninterpreted functions; "
           "scipy's curve_fit is taken to return the least-squares line")
ASSUMPTIONS = ["curve_fit of a linear function returns its least-squares solution"]

STEPS = ["hppc_charge_to_soc", "hppc_long_rest", "hppc_discharge_pulse", "hppc_short_rest", "hppc_charge_pulse", "hppc_discharge_to_next_soc"]
PARAMS = "seq_num,capacity_nominal\n1,2.0\n2,7.0\n"


def rows_frame(c, rows):
    cols = {h: [r[h] for r in rows] for h in rows[0]}
    if c.symbolic and "voltage" in cols:
        cols["voltage"] = [exact(c, x) for x in cols["voltage"]]
    return frame(c, cols)


def samples(base, step, counter, t0, pts, cycle, ctype="hppc"):
    """pts: (dt, voltage, current, capacity)"""
    return [dict(cycle_index=cycle, cycle_type=ctype, step_index=base + STEPS.index(step), step_index_counter=counter,
                 test_time=t0 + p[0], voltage=p[1], current=p[2], discharge_capacity=p[3], charge_capacity=1.0) for p in pts]


def default_pts(step, w):
    """plain numbers for a step of window w (2 Ah cell)"""
    if step == "hppc_charge_to_soc":
        return [(0.0, 3.0, 1.0, 0.0), (7000.0, 4.0, 1.0, 0.0)]
    if step == "hppc_long_rest":
        return [(0.0, 4.0, 0.0, 0.2 * w), (3600.0, 4.1 - 0.1 * w, 0.0, 0.2 * w)]
    if step == "hppc_discharge_pulse":
        return [(0.0, 4.0 - 0.1 * w, -2.0, 0.2 * w), (30.0, 3.9 - 0.1 * w, -2.0, 0.2 * w)]
    if step == "hppc_short_rest":
        return [(0.0, 3.95 - 0.1 * w, 0.0, 0.2 * w), (40.0, 4.0 - 0.1 * w, 0.0, 0.2 * w)]
    if step == "hppc_charge_pulse":
        return [(0.0, 4.05 - 0.1 * w, 1.5, 0.2 * w), (10.0, 4.1 - 0.1 * w, 1.5, 0.2 * w)]
    return [(0.0, 4.0 - 0.1 * w, -1.0, 0.2 * w), (400.0, 3.9 - 0.1 * w, -1.0, 0.2 * w + 0.1), (720.0, 3.8 - 0.1 * w, -1.0, 0.2 * w + 0.2)]


def cycle(base, cyc, t0, windows, pts=None, ctype="hppc"):
    """{(step, window): rows} of one HPPC cycle, in order"""
    out, t, n = {}, t0, 1
    out[("hppc_charge_to_soc", 0)] = samples(base, "hppc_charge_to_soc", n, t, (pts or {}).get(("hppc_charge_to_soc", 0), default_pts("hppc_charge_to_soc", 0)), cyc, ctype)
    t, n = t + 8000.0, n + 1
    for w in range(windows):
        for s in STEPS[1:]:
            p = (pts or {}).get((s, w), default_pts(s, w))
            out[(s, w)] = samples(base, s, n, t, p, cyc, ctype)
            t, n = t + 4000.0, n + 1
    return out


def flat(*cycles):
    return [r for cy in cycles for rs in cy.values() for r in rs]


def step_index(c):
    """steps are recognised by current and duration"""
    from beep.features.featurizer_helpers import get_step_index
    cap = 2.0
    focus = c.params["focus"]
    W = 2
    pts = {}
    cur = {s: default_pts(s, 0)[0][2] for s in STEPS}
    dur = {s: default_pts(s, 0)[-1][0] for s in STEPS}
    cur[focus] = c.real("current", -6, 6)
    dur[focus] = c.real("duration", 0, 3800)
    final = c.choice("final", [False, True])
    for w in range(W):
        for s in STEPS:
            if s == STEPS[0] and w:
                continue
            pts[(s, w)] = [(0.0, 3.5, cur[s], 0.0), (dur[s], 3.6, cur[s], 0.0)]
    cy = cycle(10, 3, 0.0, W, pts)
    rows = flat(cy)
    if final:
        rows += [dict(rows[-1], step_index=30, step_index_counter=99, test_time=1e5 + t, current=-1.0) for t in (0.0, 500.0)]
    rows += flat(cycle(40, 90, 2e5, 1))              # another diagnostic
    rows += [dict(r, cycle_type="reset", cycle_index=2, step_index=5) for r in rows[:2]]
    c.assume(all_of([abs(abs(cur[focus]) / cap - k) > 0.001 for k in (0.5, 0.495, 0.505, 0.005)]))
    c.assume(all_of([abs(dur[focus] - k) > 1 for k in (120, 600)]))
    c.assume(any_of([dur[focus] > 1, dur[focus] == 0]))
    dp = Datapath(protocol=c.choice("protocol", ["PreDiag_000001.000", "x\\PreDiag_000001.000"]), diagnostic_data=rows_frame(c, rows))
    unchanged = keep(c, dp)
    label, err = {}, False
    for s in STEPS:
        n = 10 + STEPS.index(s)
        r, d = cur[s] / cap, dur[s]
        if bool(abs(r) <= 0.005):
            if bool(d > 600):
                label.setdefault("hppc_long_rest", []).append(n)
            elif bool(d > 0.5):
                label.setdefault("hppc_short_rest", []).append(n)
            else:
                err = True
        elif bool(r <= -0.495) and bool(d < 120):
            label.setdefault("hppc_discharge_pulse", []).append(n)
        elif bool(r >= 0.495) and bool(d < 120):
            label.setdefault("hppc_charge_pulse", []).append(n)
        elif bool(r < 0):
            # at -100 mA steps the state of charge changes by more than 5 %
            v = abs(rounded(r)) * rounded0(d) / 3600
            c.assume(abs(v - 0.05) > 1e-3)
            if bool(v > 0.05):
                label.setdefault("hppc_discharge_to_next_soc", []).append(n)
            else:
                err = True
        elif bool(d > 120):
            label.setdefault("hppc_charge_to_soc", []).append(n)
        else:
            err = True
    if final:
        label.setdefault("hppc_final_discharge", []).append(30)
    ok = not err and all(len(v) == 1 for v in label.values())
    with scratch(c) as d:
        d.write("PreDiag_p.csv", PARAMS)
        r, got = raises((AssertionError, ValueError), lambda: get_step_index(dp, "hppc", 0, d.root))
    c.require("steps that cannot be told apart are refused, others not", r == (not ok))
    if not r and ok:
        c.require("each step index under its name", {k: int(v) for k, v in got.items()} == {k: v[0] for k, v in label.items()})
        c.cover("named")
    else:
        c.cover("refused")
    unchanged()


def rounded(r):
    return np.round(r, 2)


def rounded0(r):
    return np.round(r, 0)


def rpt_steps(c):
    from beep.features.featurizer_helpers import get_step_index
    ty = c.choice("type", ["rpt_0.2C", "rpt_1C", "rpt_2C", "reset", "other"])
    pos = c.choice("position", [0, 1, -1])
    a, b = c.real("a", -5, 5), c.real("b", -5, 5)
    c.assume(all_of([abs(abs(a) - 0.01) > 0.001, abs(abs(b) - 0.01) > 0.001]))
    rows = []
    for k, cyc in enumerate((3, 40, 80)):
        for s, cur in ((1, a), (2, b)) if k == pos % 3 else ((1, 1.0), (2, -1.0)):
            for i in range(3):
                # one outlier does not matter
                rows.append(dict(cycle_index=cyc, cycle_type=ty, step_index=10 * k + s, step_index_counter=s, test_time=float(i), current=cur if i else 2.5))
        rows.append(dict(cycle_index=cyc + 1, cycle_type="hppc", step_index=9, step_index_counter=9, test_time=0.0, current=0.0))
    med = lambda x: smax([smin([x, 2.5]), x]) if False else x
    dp = Datapath(diagnostic_data=rows_frame(c, rows))
    with scratch(c) as d:
        d.write("PreDiag_p.csv", PARAMS)
        r, got = raises((AssertionError, ValueError, NotImplementedError), lambda: get_step_index(dp, ty, pos, d.root))
    sign = lambda x: 1 if bool(x > 0.01) else -1 if bool(x < -0.01) else 0
    ok = ty != "other" and sorted((sign(a), sign(b))) == [-1, 1]
    c.require("one charge and one discharge step, else refused", r == (not ok))
    if ok and not r:
        k = pos % 3
        c.require("named", {x: int(y) for x, y in got.items()} == {ty + "_charge": 10 * k + (1 if sign(a) > 0 else 2), ty + "_discharge": 10 * k + (2 if sign(a) > 0 else 1)})
        c.cover("named")


def resist_of(rest, pulse, kind):
    """definition: voltage over current change from the end of the rest to the pulse"""
    rest = sorted(rest, key=lambda r: r["t"])
    pulse = sorted(pulse, key=lambda r: r["t"])
    i0 = [r["current"] for r in rest[-5:]]
    lim = {"0s": 0.001, "3s": 3, "end": None}[kind]
    sel = [r for r in pulse if lim is None or r["t"] - pulse[0]["t"] <= lim]
    p = sel[-1]
    return (p["voltage"] - rest[-1]["voltage"]) / (p["current"] - sum(i0) / len(i0))


def resistance(c):
    from beep.features.featurizer_helpers import res_calc, get_resistance_soc_duration_hppc, get_dr_df
    W = 2
    pos = c.choice("position", [1, 2])
    w = c.choice("window", [0, 1])
    side = c.choice("side", ["c", "d"])
    rest, pulse = ("hppc_short_rest", "hppc_charge_pulse") if side == "c" else ("hppc_long_rest", "hppc_discharge_pulse")
    order = c.choice("order", [0, 1])
    times = c.choice("times", [[0.0, 2.0, 9.0], [0.0, 3.0, 9.0], [0.0, 4.0, 9.0], [0.0, 0.001, 2.5]])
    cycles = []
    want = {}
    for k, (cyc, base) in enumerate(((3, 10), (40, 50), (80, 60))):
        pts = {}
        if k in (0, pos):
            nr = c.params["rest_rows"]
            pts[(rest, w)] = [(10.0 * i, c.real(f"v{k}_r{i}", 3, 4.2), c.real(f"i{k}_r{i}", -0.05, 0.05), 0.0) for i in range(nr)]
            s = 1 if side == "c" else -1
            pts[(pulse, w)] = [(t, c.real(f"v{k}_p{i}", 3, 4.2), s * c.real(f"i{k}_p{i}", 0.5, 4), 0.0) for i, t in enumerate(times)]
        cy = cycle(base, cyc, 0.0, W, pts)
        if order:
            for key in cy:
                cy[key] = cy[key][::-1]                     # voltage-ordered tables need not be time-ordered
        if k in (0, pos):
            for kind in ("0s", "3s", "end"):
                f = lambda rs: [dict(r, t=r["test_time"]) for r in rs]
                want[(k, kind)] = resist_of(f(cy[(rest, w)]), f(cy[(pulse, w)]), kind)
        cycles.append(cy)
    rows = flat(*cycles)
    rows.insert(0, dict(rows[0], current=float("nan")))      # rows without a current do not count
    dp = Datapath(diagnostic_data=rows_frame(c, rows))
    unchanged = keep(c, dp)
    X = get_resistance_soc_duration_hppc(dp, pos)
    names = [f"r_{a}_{b}_{j}" for a in "cd" for b in ("0s", "3s", "end") for j in range(9)]
    c.require("54 resistances in one row", sorted(X.columns) == sorted(names) and len(X) == 1)
    for kind in ("0s", "3s", "end"):
        c.require(f"resistance {side} {kind}", close(X[f"r_{side}_{kind}_{w}"].iloc[0], want[(pos, kind)], 1e-7))
    for j in range(W, 9):
        c.require("windows that were not reached are missing", is_nan_or_none(X[f"r_{side}_end_{j}"].iloc[0]))
    c.assume(all_of([abs(want[(0, k)]) > 0.01 for k in ("0s", "3s", "end")]))
    Y = get_dr_df(dp, pos)
    c.require("54 changes in one row", sorted(Y.columns) == sorted(names) and len(Y) == 1)
    for kind in ("0s", "3s", "end"):
        a, b = want[(0, kind)], want[(pos, kind)]
        c.require(f"relative change {side} {kind}", close(Y[f"r_{side}_{kind}_{w}"].iloc[0] * a, b - a, 1e-6))
    unchanged()
    c.cover("reached")


def is_nan_or_none(v):
    return v is None or bool(is_nan(v))


OCV = ["var", "min", "mean", "skew", "kurtosis", "sum", "sum_square"]


def check_stats(c, X, suffix, diff):
    st = stats_of(diff)
    want = dict(var=st["var"], min=st["min"], mean=st["mean"], skew=st["skew"], kurtosis=st["kurtosis"], sum=st["abs"], sum_square=st["square"])
    c.require("seven statistics", sorted(X.columns) == sorted(f"{k}_{suffix}" for k in want) and len(X) == 1)
    for k, v in want.items():
        if f"{k}_{suffix}" in X.columns:
            c.require(f"{k}_{suffix}", close_rel(X[f"{k}_{suffix}"].iloc[0], v))


def close_rel(a, b):
    a, b = pyval(a), pyval(b)
    if symbolic(a) or symbolic(b) or is_nan(a) or is_nan(b):
        return close(a, b)
    return abs(a - b) <= 1e-7 * max(1.0, abs(b))


def ocv(c):
    from beep.features.featurizer_helpers import get_hppc_ocv
    W = c.params["windows"]
    pos = c.choice("position", [0, 1, 2])
    settled = not c.params.get("unsettled")
    cycles, v = [], {}
    for k, (cyc, base) in enumerate(((3, 10), (40, 50), (80, 60))):
        pts = {}
        for w in range(W):
            v[(k, w)] = c.real(f"v{k}_{w}", 3, 4.2) if k in (0, pos) else 3.5
            tail = [(100.0 * (i + 2), v[(k, w)] + (0 if settled else 0.01 * i), 0.0, 0.0) for i in range(10)]
            pts[("hppc_long_rest", w)] = [(0.0, 2.0, 0.0, 0.0), (100.0, 2.5, 0.0, 0.0)] + tail
        cycles.append(cycle(base, cyc, 1e5 * k, W, pts))
    rows = flat(*cycles)
    dp = Datapath(diagnostic_data=rows_frame(c, rows))
    unchanged = keep(c, dp)
    with scratch(c) as d:
        d.write("PreDiag_p.csv", PARAMS)
        X = get_hppc_ocv(dp, pos, parameters_path=d.root)
    if settled:
        check_stats(c, X, "ocv", [v[(0, w)] - v[(pos, w)] for w in range(W)])
    else:
        c.require("mean of the last ten voltages", close(X["mean_ocv"].iloc[0], sum(v[(0, w)] - v[(pos, w)] for w in range(W)) / W, 1e-7))
    unchanged()
    c.cover("reached")


def ocv_unsettled(c):
    """known finding: the tenth-last voltage instead of the mean of the last ten"""
    from beep.features.featurizer_helpers import get_hppc_ocv_helper
    v = [c.real(f"v{i}", 3, 4.2) for i in range(11)]
    rows = [dict(step_index=1, step_index_counter=1, voltage=x) for x in v]
    got = get_hppc_ocv_helper(rows_frame(c, rows), 1)
    c.require("the open-circuit voltage is the mean of the last ten voltages of the rest", close(got[0], sum(v[1:]) / 10, 1e-7))


def v_diff(c):
    from beep.features.featurizer_helpers import get_v_diff
    W = 2
    pos = c.choice("position", [0, 1, 2])
    w = c.choice("window", [0, 1, 2])
    rev = c.choice("order", [False, True])
    part = c.choice("overlap", ["inner", "partial"])
    free = c.choice("free", c.params["free"])
    cycles, A = [], {}
    for k, (cyc, base) in enumerate(((3, 10), (40, 50), (80, 60))):
        pts = {}
        for j in range(W):
            q0 = 0.2 * j
            n = 4
            q = [q0 + x for x in (([0.0, 0.03, 0.05, 0.1] if k == 0 else ([-0.01, 0.02, 0.06, 0.09] if part == "inner" else [-0.05, 0.02, 0.06, 0.2])))]
            p = [(700.0 / 3 * i, c.real(f"v{k}_{j}_{i}", 3, 4.2) if k in (0, pos) and j == w and (k == 0) + i in free else 3.5 + 0.1 * i, -1.0, q[i]) for i in range(n)]
            pts[("hppc_discharge_to_next_soc", j)] = p[::-1] if rev else p
            A[(k, j)] = p
        cycles.append(cycle(base, cyc, 1e5 * k, W, pts))
    rows = flat(*cycles)
    # a final diagnostic appended to the first cycle, and samples without a capacity
    rows.append(dict(rows[-1], cycle_index=3, step_index=15, step_index_counter=77, discharge_capacity=9.0, cycle_type="hppc"))
    rows.append(dict(rows[-1], cycle_index=3, step_index=15, step_index_counter=6, discharge_capacity=float("nan"), cycle_type="hppc"))
    rows = [r for r in rows if r["discharge_capacity"] != 9.0] if c.params.get("plain") else rows
    dp = Datapath(diagnostic_data=rows_frame(c, rows))
    unchanged = keep(c, dp)
    with scratch(c) as d:
        d.write("PreDiag_p.csv", PARAMS)
        X = get_v_diff(dp, pos, w, d.root)
    unchanged()
    if w >= W:
        c.require("no such window, no features", X is None)
        c.cover("absent")
        return
    a, b = A[(0, w)], A[(pos, w)]
    lo, hi = min(p[3] for p in a), max(p[3] for p in a)
    b = [p for p in (b[::-1] if rev else b) if lo < p[3] < hi]
    a = a[::-1] if rev else a
    f = cubic([p[3] for p in a], [exact(c, p[1]) for p in a])
    diff = [f(p[3]) - exact(c, p[1]) for p in b]
    var = stats_of(diff)["var"]
    if bool(var > 1):
        c.require("implausible differences give no features", X is None)
        return
    c.require("features", X is not None)
    if X is not None:
        check_stats(c, X, "v_diff", diff)
    c.cover("compared")


def exact(c, x):
    return core.SymNum(core.real(core.num(x))) if c.symbolic and not symbolic(x) else x


def cubic(q, v):
    import scipy.interpolate
    return lambda x: pyval(scipy.interpolate.interp1d(np.array(q), np.array(v, dtype=object) if patches.has_sym(v) else np.array(v), kind="cubic", fill_value="extrapolate", assume_sorted=False)(np.array([x]))[0])


def line_slope(xs, ys):
    n = len(xs)
    mx, my = sum(xs) / n, sum(ys) / n
    return sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sum((x - mx) ** 2 for x in xs)


def diffusion(c):
    from beep.features.featurizer_helpers import get_diffusion_coeff, get_diffusion_features
    W = c.params["windows"]
    pos = c.choice("position", [1, 2])
    swap = c.choice("order", [False, True])
    n = c.params["rest_rows"]
    cycles, D = [], {}
    for k, (cyc, base) in enumerate(((3, 10), (40, 50), (80, 60))):
        pts = {}
        for w in range(W):
            td = 10.0 + 5 * w
            pts[("hppc_discharge_pulse", w)] = [(0.0, 3.9, -2.0, 0.0), (td, 3.8, -2.0, 0.0)]
            vs = [c.real(f"v{k}_{w}_{i}", 3, 4) if k in (0, pos) else 3.0 + 0.1 * i for i in range(n)]
            ts = [4.0 * i for i in range(n)]
            pts[("hppc_short_rest", w)] = [(t, v, 0.0, 0.0) for t, v in zip(ts, vs)]
            cut = round(2 * n / 3)
            x = [(t + td) ** 0.5 - t ** 0.5 for t in ts]
            D[(k, w)] = line_slope(x[cut:], vs[cut:])
        cy = cycle(base, cyc, 1e5 * k, W, pts)
        if swap:
            cy = {key: rs[::-1] for key, rs in cy.items()}
        cycles.append(cy)
    dp = Datapath(diagnostic_data=rows_frame(c, flat(*cycles)))
    unchanged = keep(c, dp)
    with scratch(c) as d:
        d.write("PreDiag_p.csv", PARAMS)
        X = get_diffusion_coeff(dp, pos, d.root)
        c.assume(all_of([abs(D[(0, w)]) > 0.01 for w in range(1, W)]))
        Y = get_diffusion_features(dp, pos, d.root)
    names = [f"D_{w}" for w in range(1, W)]
    c.require("one slope per window after the first", list(X.columns) == names and list(Y.columns) == names and len(X) == len(Y) == 1)
    for w in range(1, W):
        if f"D_{w}" in X.columns:
            c.require("slope of the relaxation against the square root of time", near(X[f"D_{w}"].iloc[0], D[(pos, w)]))
            c.require("relative change of the slope", near(Y[f"D_{w}"].iloc[0] * D[(0, w)], D[(pos, w)] - D[(0, w)]))
    unchanged()
    c.cover("reached")


def near(a, b):
    return close(a, b, 1e-5)


def featurizer(c):
    """all of it together: the features of the chosen diagnostic, final diagnostics ignored, the datapath unchanged"""
    from beep.features.core import HPPCResistanceVoltageFeatures
    import beep.features.featurizer_helpers as H
    W = 3
    pos = c.choice("position", [1, 2])
    noise = c.choice("noise", ["none", "final", "empty"])
    cycles = []
    for k, (cyc, base) in enumerate(((3, 10), (40, 50), (80, 60))):
        pts = {}
        for w in range(W):
            v = c.real(f"v{k}_{w}", 3.2, 4.0) if k in (0, pos) and w == 1 else 3.7 + 0.03 * k + 0.01 * w * w
            pts[("hppc_long_rest", w)] = [(300.0 * i, v, 0.0, 0.0) for i in range(12)]
            pts[("hppc_short_rest", w)] = [(4.0 * i, 3.6 + 0.01 * i + 0.002 * i * i * (k + 1), 0.0, 0.0) for i in range(9)]
            pts[("hppc_discharge_to_next_soc", w)] = [(100.0 * i, 3.9 - 0.1 * w - 0.02 * i - 0.01 * k * i * i, -1.0, 0.2 * w + 0.025 * i + 0.001 * k) for i in range(8)]
        cycles.append(cycle(base, cyc, 1e5 * k, W, pts))
    rows = good = flat(*cycles)
    if noise == "final":
        rows = rows + [dict(r, test_time=r["test_time"] + 5e6) for r in flat(cycles[0])[:20]]
    if noise == "empty":
        rows = rows + [dict(rows[0], step_index=99, step_index_counter=99, test_time=float("nan"))]
    with scratch(c) as d:
        d.write("PreDiag_p.csv", PARAMS)
        good = Datapath(diagnostic_data=rows_frame(c, good))
        want = pd.concat([H.get_dr_df(good, pos).rename(columns=lambda x: x + "0"), H.get_hppc_ocv(good, pos, parameters_path=d.root),
                          H.get_v_diff(good, pos, 2, d.root), H.get_diffusion_features(good, pos, d.root)], axis=1)
        dp = Datapath(diagnostic_data=rows_frame(c, rows), diagnostic_summary=pd.DataFrame({"cycle_type": ["reset", c.choice("summary", ["hppc", "rpt_1C"])]}))
        unchanged = keep(c, dp)
        f = HPPCResistanceVoltageFeatures(dp, {"test_time_filter_sec": 1000000, "cycle_index_filter": 6, "diag_pos": pos, "soc_window": 2, "parameters_path": d.root})
        has = "hppc" in list(dp.diagnostic_summary.cycle_type)
        c.require("valid exactly with an HPPC cycle", bool(f.validate()[0]) == has)
        if not has:
            return
        f.create_features()
    X = f.features
    c.require("all features in one row", sorted(X.columns) == sorted(want.columns) and len(X) == 1 and len(set(X.columns)) == len(X.columns))
    for h in want.columns:
        if h in X.columns:
            a, b = pyval(X[h].iloc[0]), pyval(want[h].iloc[0])
            c.require(f"{h}", (is_nan_or_none(a) and is_nan_or_none(b)) if a is None or b is None else close(a, b, 1e-7))
    unchanged()
    c.cover("reached")


def fit_patches():
    import beep.features.featurizer_helpers as H
    import scipy.optimize
    orig = scipy.optimize.curve_fit

    def curve_fit(f, x, y, *a, **k):
        x, y = list(x), list(y)
        if patches.has_sym(y) or patches.has_sym(x):
            one = [(f(p, 1.0, 0.0), f(p, 0.0, 1.0), f(p, 0.0, 0.0)) for p in x]
            u = [o[0] - o[2] for o in one]
            v = [o[1] - o[2] for o in one]
            if any(not symbolic(t) and abs(t - 1.0) > 1e-12 for t in v):
                raise core.Unsupported("curve_fit of this function")
            m = line_slope(u, y)
            return np.array([m, sum(y) / len(y) - m * sum(u) / len(u)], dtype=object), None
        return orig(f, np.array(x, dtype=float), np.array(y, dtype=float), *a, **k)
    out = [(scipy.optimize, "curve_fit", curve_fit)]
    if vars(H).get("curve_fit") is orig:
        out.append((H, "curve_fit", curve_fit))
    import scipy.interpolate
    scipy_interp1d = scipy.interpolate.interp1d
    base = patches.make_interp1d(scipy_interp1d)

    def interp1d(x, y, kind="linear", *a, **k):
        if kind == "cubic" and patches.has_sym(y) and not patches.has_sym(x):
            # a spline through points at given places is linear in the values
            xs, ys = np.array(list(x), dtype=float), [pyval(t) for t in list(y)]
            unit = [scipy_interp1d(xs, np.eye(len(xs))[i], "cubic", *a, **k) for i in range(len(xs))]

            def at(q):
                out = []
                for t in list(q):
                    w = [float(u(t)) for u in unit]
                    out.append(sum((a * b for a, b in zip(w, ys)), 0.0))
                return np.array(out, dtype=object)
            return at
        if kind == "cubic" and patches.has_sym(x):
            raise core.Unsupported("spline through symbolic places")
        return base(x, y, kind, *a, **k)
    out += [(scipy.interpolate, "interp1d", interp1d)]
    if "interp1d" in vars(H):
        out.append((H, "interp1d", interp1d))
    return out


def pats():
    return feature_patches() + fit_patches()


def known_harnesses():
    return [dict(name="ocv_unsettled", fn=ocv_unsettled, params={}, patches=pats)]


def harnesses(tier):
    deep = tier == "thorough"
    H = [dict(name=f"step_index_{s[5:]}", fn=step_index, params=dict(focus=s), patches=pats, weight=3) for s in STEPS]
    H += [dict(name="rpt_steps", fn=rpt_steps, params={}, patches=pats, weight=2),
          dict(name="resistance", fn=resistance, params=dict(rest_rows=6 if deep else 3), patches=pats, weight=5),
          dict(name="ocv", fn=ocv, params=dict(windows=3 if deep else 2), patches=pats, weight=3),
          dict(name="v_diff", fn=v_diff, params=dict(free=[[0, 2], [1, 3], [2, 4]] if deep else [[1], [2], [3]]), patches=pats, weight=4),
          dict(name="diffusion", fn=diffusion, params=dict(windows=3, rest_rows=9 if deep else 6), patches=pats, weight=4),
          dict(name="featurizer", fn=featurizer, params={}, patches=pats, weight=6)]
    return H
