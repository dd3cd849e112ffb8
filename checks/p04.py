"""P04: diagnostic summary and diagnostic interpolation."""
from .common import *
from .spec import lin, grid
from .p01 import build as raw_build, rows_of, TOL

BOUNDS = {"all": "3-4 cycles x 2 rows for the summary; 2 diagnostic cycles x 2-3 step visits x 2-3 rows for the "
                 "interpolation (axis concrete, all other measurements symbolic)"}
OUTSIDE = "longer runs; NaN cells; steps whose voltage repeats"
ASSUMPTIONS = ["time increases along the file"]
NUM = ["current", "charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy",
       "internal_resistance", "temperature"]


def diag(c, spec, **kw):
    from beep.structure.diagnostic import DiagnosticConfig
    return DiagnosticConfig(spec, **kw)


def summary(c):
    cycles = c.choice("cycles", [[1, 2, 5], [0, 3, 4]])
    df, d = raw_build(c, cycles, [2, 1, 2])
    for k in range(len(d["v"])):
        c.assume(d["discharge_energy"][k] == 1)
        c.assume(d["charge_energy"][k] == 1)
        c.assume(d["charge_capacity"][k] > 0.01)
        d["charge_energy"][k] = d["discharge_energy"][k] = 1
    spec = c.choice("spec", [{"hppc": [cycles[0]], "rpt_0.2C": [cycles[2]]},
                             {"rpt_1C": [cycles[1], cycles[2]]},
                             {"reset": [cycles[2], 40], "hppc": [cycles[1]]}])
    types = {i: t for t, ix in spec.items() for i in ix}
    dp = make_datapath(df)
    dp.diagnostic = diag(c, spec)
    snap = snapshot(dp.raw_data)
    s = dp.summarize_diagnostic()
    for l, x in same_frame(dp.raw_data, snap):
        c.require("raw data: " + l, x)
    want = [x for x in cycles if x in types]
    c.require("exactly the diagnostic cycles", [int(x) for x in s["cycle_index"]] == want)
    if [int(x) for x in s["cycle_index"]] != want:
        return
    c.cover("reached")
    for n, cy in enumerate(want):
        idx = rows_of(d, cy)
        row = s.iloc[n]
        c.require("cycle type", str(row["cycle_type"]) == types[cy])
        for k in ("discharge_capacity", "charge_capacity", "discharge_energy", "charge_energy"):
            c.require(f"{k} of its own cycle", close(row[k], smax([d[k][x] for x in idx]), TOL))
        T = [d["temperature"][x] for x in idx]
        c.require("temperatures", all_of(close(row["temperature_maximum"], smax(T), TOL),
                                         close(row["temperature_minimum"], smin(T), TOL),
                                         close(row["temperature_average"], sum(T) / len(T), TOL)))
        c.require("date", close(stamp_secs(row["date_time_iso"]), d["t"][idx[0]], 1e-3))
        qc, qd = (smax([d[k][x] for x in idx]) for k in ("charge_capacity", "discharge_capacity"))
        ce = row["coulombic_efficiency"]
        c.require("coulombic efficiency", (not is_nan(ce)) and close(ce * qc, qd, 0.05))
        gaps = [d["t"][b] - d["t"][a] for a, b in zip(idx, idx[1:])]
        g = smax(gaps) if gaps else 0
        c.require("paused", close(row["paused"], ite(g > 3600, g, 0), 0.5))


def regular_split(c):
    """the regular summary holds exactly the other cycles."""
    cycles = [1, 2, 4, 6]
    df, d = raw_build(c, cycles, [1, 1, 1, 2])
    last = rows_of(d, 6)
    c.assume(d["v"][last[0]] < 3)
    c.assume(d["v"][last[-1]] > 3.5)
    c.assume(d["discharge_capacity"][last[0]] == 3)
    spec = c.choice("spec", [{"hppc": [1], "rpt": [4]}, {"rpt": [2]}, {"reset": [2, 4]}])
    dcy = [i for ix in spec.values() for i in ix]
    dp = make_datapath(df)
    dp.diagnostic = diag(c, spec)
    s = dp.summarize_cycles()
    want = [x for x in cycles if x not in dcy]
    c.require("exactly the regular cycles", [int(x) for x in s["cycle_index"]] == want)
    if [int(x) for x in s["cycle_index"]] != want:
        return
    c.cover("reached")
    thr = 0
    for n, cy in enumerate(want):
        idx = rows_of(d, cy)
        q = smax([d["charge_capacity"][x] for x in idx])
        thr = thr + q
        c.require("own charge capacity", close(s.iloc[n]["charge_capacity"], q, TOL))
        c.require("own discharge capacity",
                  close(s.iloc[n]["discharge_capacity"], smax([d["discharge_capacity"][x] for x in idx]), TOL))
        c.require("throughput over regular cycles", close(s.iloc[n]["charge_throughput"], thr, TOL))


VISITS = {  # step numbers visited in a cycle, with voltages per row (rising / falling / flat)
    "a": [(1, [3.0, 3.3, 3.6]), (2, [3.6, 3.6, 3.6]), (1, [3.2, 3.0])],
    "b": [(5, [3.6, 3.2]), (3, [3.1, 3.4, 3.5])],
    "c": [(2, [3.5, 3.5002]), (4, [3.5, 3.1]), (2, [3.1, 3.1003])],
}


def interpolation(c):
    P = c.params
    cycles = [1, 2, 5]
    visits = {1: c.choice("v1", ["a", "c"]), 5: c.choice("v5", ["b", "a"]), 2: "b"}
    D = {k: [] for k in ["cycle_index", "step_index", "test_time", "voltage"] + NUM}
    runs = {}
    t = 0.0
    for cy in cycles:
        for n, (st, volts) in enumerate(VISITS[visits[cy]]):
            rec = {k: [] for k in D}
            for r, v in enumerate(volts):
                t += 5.0
                rec["cycle_index"].append(cy)
                rec["step_index"].append(st)
                rec["test_time"].append(t)
                rec["voltage"].append(v)
                for k in NUM:
                    if volts[0] == volts[-1] and k.endswith("charge_capacity"):
                        rec[k].append(0.25 * r)       # dQ/dV is undefined here: keep it concrete
                    else:
                        rec[k].append(c.real(f"{k}_{cy}_{n}_{r}", -5, 5))
            for k in D:
                D[k] += rec[k]
            if cy != 2:
                runs[(cy, n + 1)] = (st, rec)
    df = frame(c, D, index=P.get("index") and [3 * i + 4 for i in range(len(D["voltage"]))])
    dp = make_datapath(df)
    kinds = c.choice("types", [("hppc", "rpt_0.2C"), ("reset", "hppc_x")])
    dp.diagnostic = diag(c, {kinds[0]: [1], kinds[1]: [5]})
    typ = {1: kinds[0], 5: kinds[1]}
    snap = snapshot(df)
    m = P["m"]
    r = dp.interpolate_diagnostic_cycles(time_resolution=m, voltage_resolution=m)
    for l, x in same_frame(dp.raw_data, snap):
        c.require("raw data: " + l, x)
    got = {(int(a), int(b)) for a, b in zip(r["cycle_index"], r["step_index_counter"])}
    c.require("one group per visit of a step in a diagnostic cycle", got == set(runs))
    if got != set(runs):
        return
    c.cover("reached")
    for (cy, n), (st, rec) in runs.items():
        sub = r[(r["cycle_index"] == cy) & (r["step_index_counter"] == n)]
        tag = f"cycle {cy} visit {n}: "
        c.require(tag + "resolution rows", len(sub) == m)
        if len(sub) != m:
            return
        c.require(tag + "step index", [int(x) for x in sub["step_index"]] == [st] * m)
        order = []
        for s_, _ in VISITS[visits[cy]]:
            if s_ not in order:
                order.append(s_)
        c.require(tag + "step type is the order of first appearance",
                  [int(x) for x in sub["step_type"]] == [order.index(st)] * m)
        c.require(tag + "cycle type", {str(x) for x in sub["cycle_type"]} == {typ[cy]})
        dv = max(rec["voltage"]) - min(rec["voltage"])
        ax = "test_time" if dv < 0.001 else "voltage"
        c.cover(ax)
        lo, hi = min(rec[ax]), max(rec[ax])
        idx = sorted(range(len(rec[ax])), key=lambda i: rec[ax][i])
        xs = [rec[ax][i] for i in idx]
        rows = {}
        gridpts = grid(lo, hi, m)
        # match rows of the result to grid points by the axis value
        for i in range(m):
            a = pyval(sub[ax].iloc[i])
            j = min(range(m), key=lambda q: abs(gridpts[q] - float(a)))
            rows[j] = i
            c.require(tag + "grid", close(a, gridpts[j], 1e-3))
        c.require(tag + "every grid point once", len(rows) == m)
        if len(rows) != m:
            return
        for j, i in rows.items():
            for k in NUM:
                y = [rec[k][q] for q in idx]
                c.require(tag + f"{k} at {j} comes from its own visit",
                          lin(gridpts[j], xs, y)(pyval(sub[k].iloc[i]), 2e-3))
        if ax == "voltage":
            for j in range(1, m):
                dV = gridpts[j] - gridpts[j - 1]
                for k in ("charge", "discharge"):
                    q1, q0 = (pyval(sub[f"{k}_capacity"].iloc[rows[z]]) for z in (j, j - 1))
                    got_ = pyval(sub[f"{k}_dQdV"].iloc[rows[j]])
                    c.require(tag + f"{k} dQdV is the slope along the grid",
                              (not is_nan(got_)) and close(got_ * dV, q1 - q0, 5e-3))


def harnesses(tier):
    hs = [dict(name="summary", fn=summary, patches=stamp_patches, weight=5),
          dict(name="regular_split", fn=regular_split, patches=stamp_patches, weight=3),
          dict(name="interpolation_m3", fn=interpolation, params=dict(m=3)),
          dict(name="interpolation_index", fn=interpolation, params=dict(m=2, index=True))]
    if tier == "thorough":
        hs.append(dict(name="interpolation_m5", fn=interpolation, params=dict(m=5)))
    return hs
