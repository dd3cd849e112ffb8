"""P01: the per-cycle summary."""
from .common import *

TOL = 2e-2     # summary columns are stored as float32


BOUNDS = {"quick": "2 cycles x 2 rows or 3 cycles x 1-2 rows; cycle numbers from {0,1,2,5,7}; all "
                   "measured values symbolic reals",
          "thorough": "up to 3 cycles x 3 rows; cycle numbers from {0,1,2,3,5,7,9}"}
OUTSIDE = "longer runs; runs whose last cycle is a diagnostic one; NaN/missing raw values; non-monotonic time; float32 overflow"
ASSUMPTIONS = ["rows of one cycle are contiguous and time increases along the file"]

QUANT = ["discharge_capacity", "charge_capacity", "discharge_energy", "charge_energy",
         "internal_resistance", "temperature"]


def build(c, cycles, rows, charging=False, cap_hi=0.5, e_lo=0):
    """raw data frame with symbolic measurements; no row reaches the fast-charge level unless asked."""
    cyc, data = [], {k: [] for k in QUANT}
    t, v, i, st = [], [], [], []
    tprev = None
    for a, cy in enumerate(cycles):
        for r in range(rows[a]):
            cyc.append(cy)
            n = f"{a}_{r}"
            for k in QUANT:
                lo, hi = {"discharge_capacity": (0, 3), "charge_capacity": (0, cap_hi),
                          "discharge_energy": (e_lo, 100), "charge_energy": (e_lo, 100),
                          "internal_resistance": (0, 2), "temperature": (10, 60)}[k]
                data[k].append(c.real(f"{k}_{n}", lo, hi))
            tt = c.int(f"t_{n}", 0, 1000000)
            if tprev is not None:
                c.assume(tt > tprev)
            tprev = tt
            t.append(tt)
            v.append(c.real(f"v_{n}", 0.5, 4.5))
            i.append(c.real(f"i_{n}", -5, -0.01) if not charging else c.real(f"i_{n}", 0.01, 5))
            st.append(1)
    df = frame(c, {"cycle_index": cyc, "step_index": st, "test_time": t, "voltage": v, "current": i,
                   **data, "date_time_iso": [stamp(c, x) for x in t]})
    return df, dict(cyc=cyc, t=t, v=v, i=i, **data)


def rows_of(d, cy):
    return [k for k, x in enumerate(d["cyc"]) if x == cy]


def keep_last(c, d, cycles):
    """the documented completeness rule for the last cycle."""
    idx = rows_of(d, max(cycles))
    return all_of(smin([d["v"][k] for k in idx]) < 3.3, smax([d["v"][k] for k in idx]) > 3.3,
                  smax([d["discharge_capacity"][k] for k in idx])
                  > 0.97 * smax([d["charge_capacity"][k] for k in idx]))


def pick_cycles(c, n, thorough):
    pool = c.params.get("pool") or ([0, 1, 2, 5, 7] if not thorough else [0, 1, 2, 3, 5, 7, 9])
    import itertools
    return c.choice("cycles", [list(x) for x in itertools.combinations(pool, n)])


def aggregates(c):
    """each row holds the extreme / last / mean / first value of its own cycle."""
    P = c.params
    cycles = pick_cycles(c, len(P["rows"]), c.tier == "thorough")
    if P.get("reverse"):                    # the file lists its cycles in any order
        cycles = cycles[::-1]
    df, d = build(c, cycles, P["rows"])
    dp = make_datapath(df)
    if P.get("diag"):
        from beep.structure.diagnostic import DiagnosticConfig
        dcy = c.choice("diag", [[sorted(cycles)[0]], [sorted(cycles)[1], 99]])
        dp.diagnostic = DiagnosticConfig({"rpt": dcy})
    s = dp.summarize_cycles()
    full = keep_last(c, d, cycles)
    cycles = sorted(cycles)
    if P.get("diag"):
        cycles = [x for x in cycles if x not in dcy]
    expect = cycles if (len(cycles) == 1 or bool(full)) else cycles[:-1]
    c.cover("kept" if len(expect) == len(cycles) else "dropped")
    c.require("one row per cycle, in order", [int(x) for x in s["cycle_index"]] == expect)
    if [int(x) for x in s["cycle_index"]] != expect:
        return
    thr_c, thr_e = 0.0, 0.0
    for n, cy in enumerate(expect):
        idx = rows_of(d, cy)
        row = s.iloc[n]
        for k, agg in (("discharge_capacity", smax), ("charge_capacity", smax),
                       ("discharge_energy", smax), ("charge_energy", smax)):
            c.require(f"{k} is the cycle maximum", close(row[k], agg([d[k][x] for x in idx]), TOL))
        T = [d["temperature"][x] for x in idx]
        c.require("temperature_maximum", close(row["temperature_maximum"], smax(T), TOL))
        c.require("temperature_minimum", close(row["temperature_minimum"], smin(T), TOL))
        c.require("temperature_average", close(row["temperature_average"], sum(T) / len(T), TOL))
        c.require("resistance is the last of the cycle",
                  close(row["dc_internal_resistance"], d["internal_resistance"][idx[-1]], TOL))
        c.require("date is the first of the cycle",
                  close(stamp_secs(row["date_time_iso"]), d["t"][idx[0]], 1e-3))
        ed, ec = (smax([d[k][x] for x in idx]) for k in ("discharge_energy", "charge_energy"))
        eff = row["energy_efficiency"]
        if ec > 0:
            c.require("efficiency is discharge over charge energy",
                      (not is_nan(eff)) and close(eff * ec, ed, TOL))
        else:
            c.require("efficiency undefined without charge energy", is_nan(eff))
        thr_c = thr_c + smax([d["charge_capacity"][x] for x in idx])
        thr_e = thr_e + ec
        c.require("charge throughput is the running sum", close(row["charge_throughput"], thr_c, TOL))
        c.require("energy throughput is the running sum", close(row["energy_throughput"], thr_e, TOL))
        integ = 0
        for x, y in zip(idx, idx[1:]):
            integ = integ + (d["temperature"][x] + d["temperature"][y]) / 2 * (d["t"][y] - d["t"][x]) / 60
        # bound by a sum, not a product: compare exactly
        c.require("time-temperature integral",
                  close(row["time_temperature_integrated"], integ, 0.5 if not c.symbolic else TOL))


def erroneous(c):
    """energies above the error threshold become NaN, others are kept."""
    thr = c.real("threshold", 10, 50)
    cycles = [0, 1]
    df, d = build(c, cycles, [1, 1], e_lo=-100)
    c.assume(all_of(d["v"][1] < 3.3))       # last cycle is incomplete: one row remains
    dp = make_datapath(df)
    s = dp.summarize_cycles(error_threshold=thr)
    c.require("one row", len(s) == 1)
    for k in ("discharge_energy", "charge_energy"):
        x = d[k][0]
        got = s.iloc[0][k]
        if any_of(x > thr, x < -thr):
            c.cover(k + " removed")
            c.require(f"{k} above threshold is NaN", is_nan(got))
        else:
            c.cover(k + " kept")
            c.require(f"{k} below threshold is kept", close(got, x, TOL))


def durations(c):
    """charge duration: first time the charge capacity reaches the fast-charge level, per cycle."""
    P = c.params
    cycles = pick_cycles(c, len(P["rows"]), c.tier == "thorough")
    df, d = build(c, cycles, P["rows"], cap_hi=3)
    for k in range(len(d["v"])):            # a complete last cycle
        c.assume(d["discharge_energy"][k] == 1)
        c.assume(d["charge_energy"][k] == 1)
    last = rows_of(d, cycles[-1])
    c.assume(d["v"][last[0]] < 3)
    c.assume(d["v"][last[-1]] > 3.5)
    c.assume(d["discharge_capacity"][last[0]] == 3)
    nominal = c.real("nominal", 0.5, 2)
    frac = c.params.get("frac", 0.8)
    dp = make_datapath(df)
    s = dp.summarize_cycles(nominal_capacity=nominal, full_fast_charge=frac)
    c.require("all cycles", [int(x) for x in s["cycle_index"]] == cycles)
    if [int(x) for x in s["cycle_index"]] != cycles:
        return
    for n, cy in enumerate(cycles):
        idx = rows_of(d, cy)
        got = s.iloc[n]["charge_duration"]
        exp = float("nan")
        for x in idx:
            if d["charge_capacity"][x] >= nominal * frac:
                exp = d["t"][x] - d["t"][idx[0]]
                break
        c.cover("reached" if not is_nan(exp) else "not reached")
        c.require(f"charge duration of its own cycle", close(got, exp, 0.1))


def paused(c):
    """paused: the longest gap inside the cycle when it exceeds one hour, else 0."""
    P = c.params
    cycles = P["cycles"]
    df, d = build(c, cycles, P["rows"])
    last = rows_of(d, cycles[-1])
    c.assume(d["v"][last[0]] < 3)
    c.assume(d["v"][last[-1]] > 3.5)
    c.assume(d["discharge_capacity"][last[0]] == 3)
    dp = make_datapath(df)
    s = dp.summarize_cycles()
    c.require("all cycles", [int(x) for x in s["cycle_index"]] == cycles)
    if [int(x) for x in s["cycle_index"]] != cycles:
        return
    for n, cy in enumerate(cycles):
        idx = rows_of(d, cy)
        gaps = [d["t"][b] - d["t"][a] for a, b in zip(idx, idx[1:])]
        exp = 0
        if gaps:
            g = smax(gaps)
            exp = ite(g > 3600, g, 0)
        c.cover("long pause", exp > 0)
        c.require("paused is the longest gap over an hour", close(s.iloc[n]["paused"], exp, 0.5))


def raw_untouched(c):
    """summarising does not alter the raw data."""
    cycles = [1, 4]
    df, d = build(c, cycles, [2, 2])
    dp = make_datapath(df)
    snap = snapshot(dp.raw_data)
    dp.summarize_cycles()
    for l, x in same_frame(dp.raw_data, snap):
        c.require("raw data: " + l, x)
    c.cover("reached")


def harnesses(tier):
    hs = []
    shapes = [[2, 2], [1, 2, 1]] if tier == "quick" else [[2, 2], [1, 2, 1], [3, 2], [2, 3], [2, 2, 2]]
    for r in shapes:
        hs.append(dict(name=f"aggregates{r}", fn=aggregates, params=dict(rows=r), patches=stamp_patches,
                       weight=sum(r)))
    hs.append(dict(name="aggregates_diag", fn=aggregates, params=dict(rows=[1, 1, 2], diag=True, pool=[0, 2, 5]),
                   patches=stamp_patches, weight=3))
    hs.append(dict(name="aggregates_reverse", fn=aggregates, params=dict(rows=[1, 2], reverse=True, pool=[1, 2]),
                   patches=stamp_patches, weight=3))
    hs.append(dict(name="erroneous", fn=erroneous, patches=stamp_patches))
    for r in ([[2, 2]] if tier == "quick" else [[2, 2], [3, 2], [2, 2, 2]]):
        hs.append(dict(name=f"durations{r}", fn=durations, params=dict(rows=r), patches=stamp_patches,
                       weight=5))
    for cy, r in ([([1, 2], [2, 2]), ([3, 5], [3, 2])]):
        hs.append(dict(name=f"paused{cy}{r}", fn=paused, params=dict(cycles=cy, rows=r),
                       patches=stamp_patches))
    hs.append(dict(name="raw_untouched", fn=raw_untouched, patches=stamp_patches))
    return hs
