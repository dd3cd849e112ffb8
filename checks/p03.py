"""P03: the interpolated regular cycles."""
import itertools
from .common import *
from .spec import lin, grid

BOUNDS = {"all": "step classification: 2-4 rows, capacities symbolic; datapath: 2-3 cycles x (charge, discharge) "
                 "steps x 2-3 rows, interpolation axes concrete (chosen from a list), every other measured "
                 "value symbolic; resolution 2-3"}
OUTSIDE = ("longer runs; a single increment above 98% of a step's capacity swing in steps of three or more rows; "
           "NaN capacities")
ASSUMPTIONS = ["capacities do not decrease inside a step"]


def labels(c):
    """exactly one of charge / discharge, and the right one."""
    from beep.structure import base as B
    n = c.params["n"]
    dc = [c.real(f"dc{i}", 0, 1) for i in range(n - 1)]
    dd = [c.real(f"dd{i}", 0, 1) for i in range(n - 1)]
    c0, d0 = c.real("c0", 0, 5), c.real("d0", 0, 5)
    cc, cd = [c0], [d0]
    for x, y in zip(dc, dd):
        cc.append(cc[-1] + x)
        cd.append(cd[-1] + y)
    df = frame(c, {"charge_capacity": cc, "discharge_capacity": cd})
    ind = c.choice("indeterminate", [True, False])
    ch = B.step_is_chg(df, indeterminate_step_charge=ind)
    di = B.step_is_dchg(df, indeterminate_step_charge=ind)
    ch, di = bool(ch), bool(di)
    c.require("exactly one label", ch != di)
    tc, td = cc[-1] - cc[0], cd[-1] - cd[0]
    quiet = all_of([x <= 0.98 * tc for x in dc] + [y <= 0.98 * td for y in dd])
    if n == 2:
        quiet = any_of(all_of(tc > 0, td == 0), all_of(td > 0, tc == 0), all_of(tc == 0, td == 0))
    if quiet:
        if tc > td:
            c.cover("charge")
            c.require("a step that charges is a charge step", ch)
        elif td > tc:
            c.cover("discharge")
            c.require("a step that discharges is a discharge step", di)
        else:
            c.cover("indeterminate")
            c.require("default when indeterminate", ch == ind)


CH_V = [[3.0, 3.4, 3.6], [2.9, 3.2, 3.5]]
DI_V = [[3.6, 3.3, 2.7], [3.45, 3.1, 2.95]]
OTHER = ["current", "charge_energy", "discharge_energy", "internal_resistance", "temperature"]


PLAN = ((1, "charge"), (2, "discharge"))
PLAN2 = ((4, "charge"), (1, "charge"), (7, "single"), (3, "discharge"), (2, "discharge"))


def build(c, cycles, rows=3, wf=False, plan=PLAN):
    """cycle = the steps of the plan; axis values concrete."""
    D = {k: [] for k in ["cycle_index", "step_index", "test_time", "voltage", "charge_capacity",
                         "discharge_capacity"] + OTHER}
    steps = {}
    t = 0.0
    for a, cy in enumerate(cycles):
        for st, kind in plan:
            if kind == "single":
                t += 10.0
                for k, v in dict(cycle_index=cy, step_index=st, test_time=t, voltage=3.2, charge_capacity=0.9,
                                 discharge_capacity=0.0, **{k: 0.5 for k in OTHER}).items():
                    D[k].append(v)
                continue
            cap = [0.0, 0.35 + 0.05 * a, 1.0 + 0.1 * a]
            if rows == 2:
                cap = [cap[0], cap[2]]
            V = (CH_V if kind == "charge" else DI_V)[a % 2]
            V = V if rows == 3 else [V[0], V[2]]
            rec = {k: [] for k in D}
            top = 1.0 + 0.1 * a
            for r in range(rows):
                t += 10.0
                n = f"{a}_{st}_{r}"
                rec["cycle_index"].append(cy)
                rec["step_index"].append(st)
                rec["test_time"].append(t)
                rec["voltage"].append(V[r])
                rec["charge_capacity"].append(cap[r] if kind == "charge" else top)
                rec["discharge_capacity"].append(cap[r] if kind == "discharge" else 0.0)
                for k in OTHER:
                    rec[k].append(c.real(f"{k}_{n}", -5, 5))
            for k in D:
                D[k] += rec[k]
            steps[(cy, kind, st)] = rec
    if wf:
        D["_wf_chg_cap"] = [float("nan")] * len(D["voltage"])
        D["_wf_dis_cap"] = [float("nan")] * len(D["voltage"])
    return D, steps


def check_result(c, r, steps, keep, m, v_range, axes, allcap):
    want = [k for k in steps if k[0] in keep]
    got = []
    for cy, kind, st in zip(r["cycle_index"], r["step_type"], r["step_index"]):
        if (int(cy), str(kind), int(st)) not in got:
            got.append((int(cy), str(kind), int(st)))
    c.require("exactly the retained cycles and their steps", sorted(got) == sorted(want))
    if sorted(got) != sorted(want):
        return
    for cy, kind, st in want:
        sub = r[(r["cycle_index"] == cy) & (r["step_type"] == kind) & (r["step_index"] == st)]
        rec = steps[(cy, kind, st)]
        ax = axes[kind]
        if ax == "voltage":
            lo, hi = v_range
        elif ax == "test_time":
            lo, hi = min(rec["test_time"]), max(rec["test_time"])
        else:
            lo, hi = min(allcap), max(allcap)
        c.require(f"{cy} {kind}: resolution rows", len(sub) == m)
        if len(sub) != m:
            return
        c.require(f"{cy} {kind}: step index", [int(x) for x in sub["step_index"]] == [rec["step_index"][0]] * m)
        order = sorted(range(len(rec[ax])), key=lambda i: rec[ax][i])
        xs = [rec[ax][i] for i in order]
        cols = [k for k in rec if k not in ("cycle_index", "step_index", ax)]
        for i, g in enumerate(grid(lo, hi, m)):
            c.require(f"{cy} {kind} grid {i}", close(sub[ax].iloc[i], g, 1e-4))
            for k in cols:
                y = [rec[k][j] for j in order]
                gv = pyval(sub[k].iloc[i])
                c.require(f"{cy} {kind} {k} at {i} comes from its own step", lin(g, xs, y)(gv, 2e-3))


def datapath(c):
    """own cycle, own step, own label; excluded and diagnostic cycles absent."""
    P = c.params
    cycles = c.choice("cycles", P["cycles"])
    D, steps = build(c, cycles, P["rows"], P.get("wf", False), P.get("plan", PLAN))
    df = frame(c, D, index=P.get("index") and [i * 2 + 5 for i in range(len(D["voltage"]))])
    dp = make_datapath(df)
    keep = list(cycles)
    if P.get("diag"):
        from beep.structure.diagnostic import DiagnosticConfig
        dcy = c.choice("diag", [[cycles[0]], [cycles[-1]], [99, cycles[1]]])
        dp.diagnostic = DiagnosticConfig({"rpt": dcy})
        keep = [x for x in keep if x not in dcy]
    excl = None
    if P.get("excl"):
        excl = c.choice("excl", [[cycles[0]], [cycles[-1], 77], []])
        keep = [x for x in keep if x not in excl]
    v_range = c.choice("v_range", [[2.8, 3.5], [3.0, 3.3]]) if not P.get("default_v") else None
    snap = snapshot(df)
    kw = {}
    axes = dict(charge="charge_capacity", discharge="voltage")
    if P.get("axes"):
        axes = P["axes"]
        kw = dict(charge_axis=axes["charge"], discharge_axis=axes["discharge"])
    m = P["m"]
    r = dp.interpolate_cycles(v_range=v_range, resolution=m, exclude_cycles=excl, **kw)
    for l, t in same_frame(dp.raw_data, snap):
        c.require("raw data: " + l, t)
    c.cover("reached")
    check_result(c, r, steps, keep, m, v_range or [2.8, 3.5], axes, D["charge_capacity"])


def sym_axis(c):
    """one charge and one discharge step with symbolic voltages and capacities."""
    v = [c.real(f"v{i}", 2, 4) for i in range(2)]
    cap = [c.real(f"cap{i}", 0, 2) for i in range(2)]
    dis = [c.real(f"dis{i}", 0, 2) for i in range(2)]
    w = [c.real(f"w{i}", 2, 4) for i in range(2)]
    c.assume(all_of(v[1] > v[0] + 0.01, w[1] < w[0] - 0.01, cap[1] > cap[0] + 0.01, dis[1] > dis[0] + 0.01))
    D = dict(cycle_index=[2, 2, 2, 2], step_index=[1, 1, 2, 2], test_time=[1.0, 2.0, 3.0, 4.0], voltage=v + w,
             charge_capacity=cap + [cap[1], cap[1]], discharge_capacity=[dis[0], dis[0]] + dis,
             current=[c.real(f"i{k}", -2, 2) for k in range(4)])
    for k in ("charge_energy", "discharge_energy", "internal_resistance", "temperature"):
        D[k] = [0.5, 0.5, 0.5, 0.5]
    dp = make_datapath(frame(c, D))
    r = dp.interpolate_cycles(v_range=[2.5, 3.5], resolution=2)
    c.cover("reached")
    steps = {(2, "charge", 1): {k: x[:2] for k, x in D.items()}, (2, "discharge", 2): {k: x[2:] for k, x in D.items()}}
    ch = r[r["step_type"] == "charge"]
    di = r[r["step_type"] == "discharge"]
    c.require("one charge and one discharge step", len(ch) == 2 and len(di) == 2)
    if len(ch) != 2 or len(di) != 2:
        return
    for i, g in enumerate([2.5, 3.5]):
        c.require("voltage grid", close(di["voltage"].iloc[i], g, 1e-4))
        for k in ("current", "discharge_capacity"):
            y = D[k][2:][::-1]
            c.require(f"discharge {k} at {i}", lin(g, w[::-1], y)(pyval(di[k].iloc[i]), 2e-3))
    for i, g in enumerate([cap[0], cap[1]]):
        c.require("charge grid", close(ch["charge_capacity"].iloc[i], g, 1e-4))
        for k in ("current", "voltage"):
            c.require(f"charge {k} at {i}", lin(g, cap, D[k][:2])(pyval(ch[k].iloc[i]), 2e-3))


def waveform(c):
    """waveform steps are interpolated along time."""
    cycles = [1, 3]
    D, steps = build(c, cycles, 3, True)
    kind = c.choice("kind", ["charge", "discharge", "none", "both"])
    for part in () if kind == "none" else ("charge", "discharge") if kind == "both" else (kind,):
        k = 1 if part == "charge" else 2
        for i in range(len(D["voltage"])):
            if D["cycle_index"][i] == 3 and D["step_index"][i] == k:
                D["_wf_chg_cap" if c.bool("wf_in_charge_column") else "_wf_dis_cap"][i] = 0.5
    dp = make_datapath(frame(c, D))
    keep = cycles
    diag = c.choice("diagnostic", [None, [3], [1]])
    if diag:
        from beep.structure.diagnostic import DiagnosticConfig
        dp.diagnostic = DiagnosticConfig({"hppc": diag})
        keep = [x for x in cycles if x not in diag]
    r = dp.interpolate_cycles(v_range=[2.8, 3.5], resolution=2)
    axes = dict(charge="charge_capacity", discharge="voltage")
    if kind != "none" and diag != [3]:       # a waveform in a diagnostic cycle does not concern the regular ones
        for part in ("charge", "discharge") if kind == "both" else (kind,):
            axes[part] = "test_time"
    c.cover(kind)
    check_result(c, r, steps, keep, 2, [2.8, 3.5], axes, D["charge_capacity"])


def harnesses(tier):
    hs = []
    for n in ((2, 3) if tier == "quick" else (2, 3, 4)):
        hs.append(dict(name=f"labels_n{n}", fn=labels, params=dict(n=n), weight=3))
    cy = [[1, 2], [0, 4]]
    hs.append(dict(name="datapath", fn=datapath, params=dict(cycles=cy, rows=3, m=3, default_v=True)))
    hs.append(dict(name="datapath_index", fn=datapath, params=dict(cycles=[[2, 5]], rows=2, m=2, index=True)))
    hs.append(dict(name="datapath_diag", fn=datapath, params=dict(cycles=[[1, 2, 6]], rows=2, m=2, diag=True)))
    hs.append(dict(name="datapath_excl", fn=datapath, params=dict(cycles=[[1, 2, 6]], rows=2, m=2, excl=True)))
    hs.append(dict(name="datapath_both", fn=datapath,
                   params=dict(cycles=[[1, 2, 6]], rows=2, m=2, excl=True, diag=True)))
    hs.append(dict(name="datapath_axes", fn=datapath,
                   params=dict(cycles=[[3, 7]], rows=3, m=3,
                               axes=dict(charge="voltage", discharge="test_time"))))
    hs.append(dict(name="datapath_axes2", fn=datapath,
                   params=dict(cycles=[[3, 7]], rows=3, m=3,
                               axes=dict(charge="test_time", discharge="voltage"))))
    hs.append(dict(name="datapath_steps", fn=datapath,
                   params=dict(cycles=[[3, 7]], rows=3, m=2, plan=PLAN2)))
    hs.append(dict(name="sym_axis", fn=sym_axis, weight=4))
    hs.append(dict(name="waveform", fn=waveform))
    if tier == "thorough":
        hs.append(dict(name="datapath_big", fn=datapath,
                       params=dict(cycles=[[1, 2, 3], [0, 4, 9]], rows=3, m=4, excl=True, diag=True)))
    return hs
