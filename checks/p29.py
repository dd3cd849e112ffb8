"""P29: Maccor waveform files hold the waveform they are made from, within the limits asked for."""
import builtins
from .cli import *
from symex.core import smax, smin
from symex import patches as SP

BOUNDS = {"all": "waveforms of up to 4 (thorough 6) samples with symbolic values and settings; velocity profiles of 3-5 samples, three "
                 "units, up to 3 repetitions, symbolic power, scaling and limits; rapid charging with 3-4 symbolic C-rates (0.2-3 C) over "
                 "symbolic or chosen windows on 5-9 points of state of charge"}
OUTSIDE = ("waveforms that are zero throughout; the shape of scipy's monotone interpolation between its knots and the numerical success of "
           "its root finder; times of a waveform other than one sample per second")
ASSUMPTIONS = ["scipy's PchipInterpolator passes through its knots, lies between neighbouring knots and is missing outside (contract); fsolve "
               "returns a root (contract)", "a mile is 1600 m as the code has it"]
COLS = ["state", "mode", "value", "lmode", "lval", "dur", "emode", "op", "eval", "rmode", "rval", "range"]


def num(x):
    v = cell(x)
    return float(x) if v is None else v


def rows_of(path):
    with memfs._open(path, encoding="utf-8") as f:
        lines = [l for l in f.read().split("\n") if l]
    return [dict(zip(COLS + ["more"], l.split("\t"))) for l in lines]


def config(c):
    return {"control_mode": c.choice("control", ["P", "I"]), "value_scale": c.real("scale", 0.1, 50),
            "charge_limit_mode": "V", "charge_limit_value": c.real("cl", 3.5, 4.5), "discharge_limit_mode": "W",
            "discharge_limit_value": c.real("dl", 2, 3.4), "charge_end_mode": "X", "charge_end_operation": ">=",
            "charge_end_mode_value": c.real("ce", 3.5, 4.6), "discharge_end_mode": "Y", "discharge_end_operation": "<=",
            "discharge_end_mode_value": c.real("de", 2, 3.4), "report_mode": "T", "report_value": c.real("rv", 0.1, 10), "range": "R"}


def judge(c, path, v, cfg, kind, tag=""):
    """the rows, expanded by their durations, are the scaled waveform with the settings of each direction"""
    rows = rows_of(path)
    c.require(tag + "columns", all(len(r) == 12 for r in rows))
    if not all(len(r) == 12 for r in rows):
        return
    durs = [num(r["dur"]) for r in rows]
    c.require(tag + "durations add up", all(d == builtins.int(d) and d >= 1 for d in durs) and builtins.sum(durs) == len(v))
    if builtins.sum(durs) != len(v):
        return
    peak = abs(v[0])
    for x in v[1:]:
        if abs(x) > peak:
            peak = abs(x)
    k = 0
    for i, (r, d) in enumerate(zip(rows, durs)):
        for j in range(k, k + builtins.int(d)):
            up = bool(v[j] > 0)
            zero = bool(v[j] == 0)
            t = f"{tag}sample {j}: "
            c.require(t + "state", r["state"] == ("C" if up else "D"))
            c.require(t + "value", close(num(r["value"]), abs(v[j] / peak * cfg["value_scale"]), 0.0000051))
            c.require(t + "control mode", r["mode"] == ("I" if zero and kind == "power" and cfg["control_mode"] == "P" else cfg["control_mode"]))
            s = "charge" if up else "discharge"
            c.require(t + "limit", all_of(r["lmode"] == cfg[s + "_limit_mode"], close(num(r["lval"]), cfg[s + "_limit_value"], 1e-9)))
            c.require(t + "end", all_of(r["emode"] == cfg[s + "_end_mode"], r["op"] == cfg[s + "_end_operation"],
                                        close(num(r["eval"]), cfg[s + "_end_mode_value"], 1e-9)))
        c.require(f"{tag}row {i}: report", all_of(r["rmode"] == cfg["report_mode"], close(num(r["rval"]), cfg["report_value"], 1e-9),
                                                 r["range"] == cfg["range"]))
        k += builtins.int(d)
        if k < len(v):
            c.require(f"{tag}row {i}: ends where the value changes", v[k] != v[k - 1])


def default_config():
    from monty.serialization import loadfn
    from beep import MODULE_DIR
    return dict(loadfn(os.path.join(MODULE_DIR, "conversion_schemas", "maccor_waveform_conversion.yaml")))


def wave(c):
    from beep.protocol import maccor as M
    n, kind = c.params["n"], c.params["kind"]
    v = [c.real(f"v{i}", -5, 5) for i in range(n)]
    c.assume(any_of([abs(x) >= 0.01 for x in v]))
    with world(c) as w:
        own, order, start = c.choice("form", [(True, ["time", kind], 0), (False, ["time", kind], 0), (True, [kind, "time"], 5)])
        cfg = config(c) if own else default_config()
        was = dict(cfg)
        data = {"time": list(range(n)), kind: v}
        df = pd.DataFrame({k: data[k] for k in order}, index=list(range(start, start + n)))
        if c.symbolic:
            df[kind] = df[kind].astype(object)
        before = df.copy()
        p = M.generate_maccor_waveform_file(df, "wave", w.dir("out"), **({"mwf_config": cfg} if own else {}))
        c.require("file", p == w.path("out", "wave.MWF") and w.files() == {p})
        c.require("the waveform given stays as it was", all_of(list(df.columns) == list(before.columns), len(df) == n,
                                                               list(df.columns) == list(before.columns)
                                                               and all_of([same_cell(x, y) for x, y in zip(df[kind], v)])))
        c.require("the settings given stay as they were", all_of(set(cfg) == set(was), all_of([cfg[k] == was[k] for k in was if k in cfg])))
        judge(c, p, v, was, kind)
        c.cover("charge", any_of([x > 0 for x in v]))
        c.cover("rest", any_of([x == 0 for x in v]))


SPEED = {"mph": (8, 18), "kmph": (5, 18), "mps": (1, 1)}


def power_of(t, v, unit="mps"):
    """the vehicle's power for speeds v in m/s at times t"""
    n = len(t)
    out = []
    for i in range(n):
        if i == 0:
            a = (v[1] - v[0]) / (t[1] - t[0])
        elif i == n - 1:
            a = (v[-1] - v[-2]) / (t[-1] - t[-2])
        else:
            hd, hs = t[i + 1] - t[i], t[i] - t[i - 1]
            a = (hs * hs * v[i + 1] + (hd * hd - hs * hs) * v[i] - hd * hd * v[i - 1]) / (hs * hd * (hd + hs))
        out.append(-(1500 * a + 0.01 * 1500 * 9.8 + 0.5 * 1.225 * 0.34 * 1.75 * v[i] * v[i]) * v[i])
    return out


def velocity(c):
    from beep.utils.waveform import convert_velocity_to_power_waveform as f
    n = c.params["n"]
    t = c.choice("times", [[0, 1, 2, 3, 4], [0.0, 1.0, 3.0, 3.5, 7.0], [5, 6, 7, 8, 9]])[:n]
    v = [c.real(f"v{i}", 0, 60) for i in range(n)]
    unit = c.choice("unit", ["mph", "kmph", "mps", "knots"])
    with world(c) as w:
        p = w.write("v.txt", c.choice("head", ["t\tv", "time (s)\tspeed"]) + "\n" + "".join(f"{txt(a)}\t{txt(b)}\n" for a, b in zip(t, v)))
        if unit == "knots":
            r, _ = raises((NotImplementedError,), lambda: f(p, unit))
            c.require("unknown unit is refused", r)
            c.cover("unknown unit")
            return
        df = f(p, velocity_units=unit)
    a, b = SPEED[unit]
    want = power_of(t, [x * a / b for x in v])
    c.require("columns", sorted(df.columns) == ["power", "time"] and len(df) == n)
    if len(df) == n and sorted(df.columns) == ["power", "time"]:
        c.require("times", all(x == y for x, y in zip(df["time"], t)))
        for i in range(n):
            c.require(f"power {i}", close(df["power"].iloc[i], want[i], 0.01))
    c.cover("reached")


PROFILES = {"US06": ([0, 1, 2, 3], [0, 5, 5, 0]), "LA4": ([0, 1, 2, 3, 4], [0, 0, 9, 3, 4])}


def drive(c):
    """the driving waveform: repeated, scaled to the power asked for, within the limits asked for; no memory between calls"""
    from beep.protocol import maccor as M
    with world(c) as w:
        w.dir("schemas")
        for k, (t, v) in PROFILES.items():
            w.write(f"schemas/{k}_velocity_waveform.txt", "t\tv\n" + "".join(f"{a}\t{b}\n" for a, b in zip(t, v)))
        cfg0 = default_config()
        with stubs([(M, "PROTOCOL_SCHEMA_DIR", w.path("schemas"))]):
            todo = []
            for i in range(c.params["calls"]):
                P = {"discharge_profile": c.choice(f"profile{i}", ["US06", "LA4"]), "n_repeats": c.choice(f"repeats{i}", c.params["repeats"]),
                     "max_profile_power": c.real(f"power{i}", 20, 40), "power_scaling": c.real(f"scaling{i}", 0.3, 1),
                     "profile_charge_limit": c.real(f"limit{i}", 3.5, 4.4), "discharge_cutoff_voltage": c.real(f"cut{i}", 2.2, 3.2)}
                x = P["max_profile_power"] * P["power_scaling"]
                lo = c.params["watts"][i]
                c.assume(x >= lo)
                c.assume(x < lo + 1)
                ps = pd.Series(P, dtype=object)
                d = w.path("made", "mwf") if c.choice(f"new{i}", [True, False]) else w.dir("there")
                p = M.insert_driving_parametersv1(ps, waveform_directory=d)
                a, z = f"{P['discharge_profile']}_x{P['n_repeats']}_", "W.MWF"
                q = os.path.basename(str(p))
                c.require(f"{i}: file", all_of(os.path.dirname(p) == d, os.path.isfile(p), q.startswith(a) and q.endswith(z),
                                               q.startswith(a) and q.endswith(z) and num(q[len(a):-len(z)]) == lo))
                c.require(f"{i}: parameters stay", all_of([same_cell(ps[k], P[k]) for k in P]) and list(ps.index) == list(P))
                todo.append((P, x, p))
            for i, (P, x, p) in enumerate(todo):
                t, v = PROFILES[P["discharge_profile"]]
                want = power_of(t, [y * 1600 / 3600 for y in v]) * P["n_repeats"]
                cfg = dict(cfg0, value_scale=x, charge_limit_value=P["profile_charge_limit"],
                           charge_end_mode_value=P["profile_charge_limit"] + 0.05, discharge_end_mode_value=P["discharge_cutoff_voltage"] - 0.1)
                if not any(q == p for _, _, q in todo[i + 1:]):
                    judge(c, p, want, cfg, "power", f"{i}: ")
        # a later waveform with the default settings has the default settings
        later = [c.real(f"l{i}", -5, 5) for i in range(2)]
        c.assume(abs(later[0]) >= 1)
        df = pd.DataFrame({"time": [0, 1], "power": later})
        p = M.generate_maccor_waveform_file(df, "later", w.dir("out"))
        judge(c, p, later, cfg0, "power", "default settings afterwards: ")
        c.cover("reached")


def clash(c):
    """two drive profiles that only differ in their limits have the same file name: neither may lose its limits silently"""
    from beep.protocol import maccor as M
    with world(c) as w:
        w.dir("schemas")
        t, v = PROFILES["US06"]
        w.write("schemas/US06_velocity_waveform.txt", "t\tv\n" + "".join(f"{a}\t{b}\n" for a, b in zip(t, v)))
        with stubs([(M, "PROTOCOL_SCHEMA_DIR", w.path("schemas"))]):
            made = []
            for i in range(2):
                P = {"discharge_profile": "US06", "n_repeats": 1, "max_profile_power": 32.0, "power_scaling": 1.0,
                     "profile_charge_limit": c.real(f"limit{i}", 3.5, 4.4), "discharge_cutoff_voltage": 2.7}
                try:
                    made.append((P, M.insert_driving_parametersv1(pd.Series(P, dtype=object), waveform_directory=w.dir("there"))))
                except Exception:
                    c.cover("refused")
            for i, (P, p) in enumerate(made):
                up = [r for r in rows_of(p) if r["state"] == "C"]
                c.require(f"{i}: limit of the waveform of the procedure", all_of([close(num(r["lval"]), P["profile_charge_limit"], 1e-9) for r in up]))
            c.cover("reached")


def charge(c):
    """the charging waveform: the chosen current, in A, at its limits"""
    from beep.protocol import maccor as M
    n = c.params["n"]
    top = c.choice("max", [3.0, 2.0])
    cur = {k: [c.real(f"{k}{i}", 0.2, 4) for i in range(n)] for k in ("smooth", "step")}
    P = {"project_name": "RapidC", "seq_num": c.choice("seq", [0, 101]), "charge_type_1": c.choice("type", ["smooth", "step", "other"]),
         "charge_start_soc": 0.05, "charge_fast_soc_limit": 0.8, "charge_soc_param_1": 0.25, "charge_soc_param_2": 0.6,
         "capacity_nominal": c.real("cap", 0.5, 10), "charge_cutoff_voltage": c.real("cut", 3.8, 4.4), "charge_voltage_offset_1": c.real("off", 0, 0.2)}
    for i in range(4):
        P[f"charge_current_param_{i + 1}"] = c.real(f"c{i}", 0.2, 3)
    log = []
    dt = object if c.symbolic else float

    def currents(self, rates, mesh):
        log.append((self, list(rates), list(mesh)))
        return np.array(cur["smooth"], dtype=dt), np.array(cur["step"], dtype=dt), np.arange(n)
    with world(c) as w, stubs([(M.RapidChargeWave, "get_currents_with_uniform_time_basis", currents)]):
        ps = pd.Series(P, dtype=object)
        d = w.path("made", "mwf") if c.choice("new", [True, False]) else w.dir("there")
        kw = {} if c.choice("rates", ["default", "given"]) == "default" else dict(max_c_rate=top, min_c_rate=0.25)
        if not kw:
            top = 3.0
        over = bool(any_of([x > top for k in cur for x in cur[k]]))
        try:
            p = M.insert_charging_parametersv1(ps, waveform_directory=d, **kw)
        except (AssertionError, NotImplementedError) as e:
            c.require("refused only when it has to be", over or P["charge_type_1"] == "other")
            c.require("nothing written when refused", not w.files())
            c.cover("over", over)
            c.cover("other", P["charge_type_1"] == "other")
            return
        c.require("currents above the limit and unknown types are refused", not over and P["charge_type_1"] != "other")
        c.require("one wave", len(log) == 1)
        if len(log) == 1:
            s, rates, mesh = log[0]
            c.require("the wave's settings", all_of(s.final_c_rate == P["charge_current_param_4"], s.soc_i == 0.05, s.soc_f == 0.8, s.max_c_rate == top,
                                                    s.min_c_rate == kw.get("min_c_rate", 0.2), len(rates) == 4, list(mesh) == [0.05, 0.25, 0.6, 0.8],
                                                    len(rates) == 4 and all_of([rates[i] == P[f"charge_current_param_{i + 1}"] for i in range(4)])))
        c.require("parameters stay", all_of([same_cell(ps[k], P[k]) for k in P]) and list(ps.index) == list(P))
        c.require("file", p == os.path.join(d, f"RapidC_{P['charge_type_1']}_{P['seq_num']}.MWF") and w.files() == {p})
        if P["charge_type_1"] in cur and os.path.isfile(p):
            v = cur[P["charge_type_1"]]
            peak = v[0]
            for x in v[1:]:
                if x > peak:
                    peak = x
            cfg = dict(default_config(), control_mode="I", value_scale=P["capacity_nominal"] * peak,
                       charge_limit_value=P["charge_cutoff_voltage"] - P["charge_voltage_offset_1"])
            judge(c, p, v, cfg, "current")
            c.cover(P["charge_type_1"])


def soc_grid(a, b, n):
    return [a + (b - a) * i / (n - 1) for i in range(n)]


def new_wave(c, final, a, b, n, top=3.0, low=0.2):
    from beep.utils.waveform import RapidChargeWave
    x = RapidChargeWave(final, a, b, top, low)
    x.soc_points = n
    return x


def multistep(c):
    """within each window the charging rate is that window's"""
    n, k = c.params["points"], c.params["windows"]
    a, b = c.choice("range", [(0.05, 0.8), (0.0, 1.0)])
    full = c.choice("windows end", ["at the limit", "before it"])
    inner = [c.real(f"s{i}", a, b) for i in range(k - 1 if full == "at the limit" else k)]
    mesh = [a] + inner + ([b] if full == "at the limit" else [])
    for x, y in zip(mesh, mesh[1:]):
        c.assume(x < y)
    if full != "at the limit":
        c.assume(mesh[-1] < b)
    rates = [c.real(f"r{i}", 0.2, 3) for i in range(k)]
    final = c.real("final", 0.2, 3)
    x = new_wave(c, final, a, b, n)
    mesh0, rates0 = list(mesh), list(rates)
    cur, soc = x.get_input_current_multistep_soc_as_x(rates, mesh)
    grid = soc_grid(a, b, n)
    c.require("grid", len(soc) == n and len(cur) == n and all(abs(p - q) < 1e-9 for p, q in zip(soc, grid)))
    c.require("inputs stay", all_of([p == q for p, q in zip(mesh, mesh0)] + [p == q for p, q in zip(rates, rates0)]))
    if len(cur) != n:
        return
    for j, s in enumerate(grid):
        # a knot within rounding of a grid point is either side's
        for i in range(k):
            c.require(f"point {j} in window {i}", implies(all_of(s > mesh[i] + 1e-9, s < mesh[i + 1] - 1e-9), close(cur[j], rates[i], 1e-9)))
        if full != "at the limit":
            c.require(f"point {j} after the windows", implies(all_of(s > mesh[-1] + 1e-9, s < b - 1e-9), close(cur[j], final, 1e-9)))
        c.require(f"point {j} is no more than the rates around it", cur[j] <= smax(rates + [final]) + 1e-9)
    c.cover("reached")


def times(c):
    """the time of each point of the charge follows from the rates before it"""
    n = c.params["points"]
    a, b = c.choice("range", [(0.05, 0.8), (0.0, 1.0)])
    cur = [c.real(f"r{i}", 0.2, 3) for i in range(n)]
    x = new_wave(c, 1.0, a, b, n)
    t = x.get_time_vector_from_c_vs_soc(np.array(soc_grid(a, b, n)), np.array(cur, dtype=object if c.symbolic else float))
    c.require("times", len(t) == n)
    h = (b - a) / (n - 1)
    total = 0
    for j in range(min(n, len(t))):
        total = total + (1 / cur[j]) * h * 3600
        c.require(f"time {j}", close(t[j], total, 1e-4))
    c.cover("reached")


MESH = [[0.05, 0.25, 0.65, 0.8], [0.1, 0.2, 0.9], [0.0, 0.5, 0.6, 1.0]]


def smooth(c):
    """the smooth rate is the window's in its middle and stays within the limits"""
    mesh = list(c.choice("mesh", MESH))
    a, b = mesh[0], mesh[-1]
    n = c.params["points"]
    top, low = c.choice("limits", [(3.0, 0.2), (2.0, 0.5)])
    rates = [c.real(f"r{i}", 0.1, 4) for i in range(len(mesh))]
    x = new_wave(c, rates[-1], a, b, n, top, low)
    rates0, mesh0 = list(rates), list(mesh)
    cur, soc = x.get_input_current_smooth_soc_as_x(rates, mesh)
    grid = soc_grid(a, b, n)
    c.require("grid", len(soc) == n and len(cur) == n and all(abs(p - q) < 1e-9 for p, q in zip(soc, grid)))
    c.require("inputs stay", all_of([p == q for p, q in zip(mesh, mesh0)] + [p == q for p, q in zip(rates, rates0)]))
    if len(cur) != n:
        return
    clip = [smin([smax([r, low]), top]) for r in rates]
    mid = [(p + q) / 2 for p, q in zip(mesh, mesh[1:])] + [b]
    for j, s in enumerate(grid):
        c.require(f"point {j} within the limits", all_of(cur[j] >= low - 1e-9, cur[j] <= top + 1e-9))
        for i in range(len(mid)):
            if abs(s - mid[i]) < 1e-9:
                c.require(f"point {j} in the middle of window {i}", close(cur[j], clip[i], 1e-6))
                c.cover("middle")
        for i in range(len(mid) - 1):
            if mid[i] < s < mid[i + 1]:
                c.require(f"point {j} between the windows {i} and {i + 1}",
                          all_of(cur[j] >= smin([clip[i], clip[i + 1]]) - 1e-9, cur[j] <= smax([clip[i], clip[i + 1]]) + 1e-9))
        if s < mid[0] - 1e-9:
            c.require(f"point {j} before the first middle", cur[j] >= clip[0] - 1e-6)
    c.cover("reached")


def matched(c):
    """both waves: the step one as asked, the smooth one shifted in the middle to end at the same time"""
    import scipy.optimize
    mesh = list(c.choice("mesh", MESH[:2]))
    a, b = mesh[0], mesh[-1]
    n = c.params["points"]
    rates = [c.real(f"r{i}", 0.3, 2.5) for i in range(len(mesh))]
    x = new_wave(c, rates[-1], a, b, n)
    cs, ts, cm, tm = x.get_input_currents_both_to_final_soc(rates, mesh)
    wm, grid = x.get_input_current_multistep_soc_as_x(rates, mesh)
    wt = x.get_time_vector_from_c_vs_soc(grid, wm)
    c.require("step current", all_of(len(cm) == n, len(cm) == n and all_of([close(p, q, 1e-9) for p, q in zip(cm, wm)])))
    c.require("step times", all_of(len(tm) == n, len(tm) == n and all_of([close(p, q, 1e-6) for p, q in zip(tm, wt)])))
    c.require("smooth lengths", len(cs) == n and len(ts) == n)
    if len(cs) == n and len(ts) == n:
        ws = x.get_time_vector_from_c_vs_soc(grid, cs)
        for j in range(n):
            c.require(f"smooth {j} within the limits", all_of(cs[j] >= 0.2 - 1e-9, cs[j] <= 3 + 1e-9))
            c.require(f"smooth time {j}", close(ts[j], ws[j], 1e-6))
        c.require("the last rate is as asked", close(cs[-1], rates[-1], 1e-6))
        solved = True
        if not c.symbolic:                             # where scipy's root finder finds the shift at all
            def late(o):
                r = [rates[0]] + [v + float(np.ravel(o)[0]) for v in rates[1:-1]] + [rates[-1]]
                return wt[-1] - x.get_time_vector_from_c_vs_soc(grid, x.get_input_current_smooth_soc_as_x(r, mesh)[0])[-1]
            o, _, ier, _ = scipy.optimize.fsolve(late, 0.01, maxfev=1000, factor=0.1, epsfcn=0.01, full_output=True)
            solved = ier == 1 and abs(late(o)) < 1e-3
        if solved:
            c.require("both end at the same time", close(ts[-1], tm[-1], 1e-3 if c.symbolic else 1))
    c.cover("reached")


def uniform(c):
    """both waves second by second"""
    n = c.params["points"]
    cur = {k: [c.real(f"{k}{i}", 0.2, 3) for i in range(n)] for k in "sm"}
    t = {}
    for k in "sm":
        t[k] = [c.real(f"t{k}0", 0.1, 1.5)]
        for i in range(1, n):
            d = c.real(f"d{k}{i}", 0.2, 1.5)
            t[k].append(t[k][-1] + d)
    kind = c.choice("mesh", ["good", "equal", "back", "back twice"])
    mesh = {"good": [0.1, 0.4, 0.6, 0.8], "equal": [0.1, 0.4, 0.4, 0.8], "back": [0.1, 0.6, 0.4, 0.8], "back twice": [0.8, 0.6, 0.4, 0.1]}[kind]
    rates = [1.0, 2.0, 1.5, 1.0]
    x = new_wave(c, 1.0, 0.1, 0.8, n)
    dt = object if c.symbolic else float
    arr = {k: (np.array(cur[k], dtype=dt), np.array(t[k], dtype=dt)) for k in "sm"}
    seen = []

    def both(self, r, m):
        seen.append((list(r), list(m)))
        return arr["s"][0], arr["s"][1], arr["m"][0], arr["m"][1]
    from beep.utils.waveform import RapidChargeWave as K
    ends = {k: t[k][-1] for k in "sm"}
    for k in "sm":                                     # no end on a half second: rounding is not in question
        for h in range(0, 8):
            c.assume(abs(ends[k] - (h + 0.5)) > 1e-6)
    with stubs([(K, "get_input_currents_both_to_final_soc", both)]):
        if kind != "good":
            r, _ = raises((AssertionError, ValueError), lambda: x.get_currents_with_uniform_time_basis(rates, mesh))
            c.require("windows that do not follow each other are refused", r)
            c.cover("refused windows")
            return
        e = {k: None for k in "sm"}
        for k in "sm":
            for h in range(0, 8):
                if bool(all_of(ends[k] > h - 0.5, ends[k] < h + 0.5)):
                    e[k] = h
        if e["s"] != e["m"]:
            r, _ = raises((AssertionError, ValueError), lambda: x.get_currents_with_uniform_time_basis(rates, mesh))
            c.require("waves of different lengths are refused", r)
            c.cover("refused lengths")
            return
        s, m, u = x.get_currents_with_uniform_time_basis(rates, mesh)
    c.require("asked once", seen == [(rates, mesh)])
    c.require("one value per second", len(u) == e["s"] and len(s) == e["s"] and len(m) == e["s"] and [float(q) for q in u] == [float(q) for q in range(e["s"])])
    for k, got in (("s", s), ("m", m)):
        for j in range(min(len(got), e["s"])):
            if bool(j <= t[k][0]):
                want = cur[k][0]
            elif bool(j >= t[k][-1]):
                want = cur[k][-1]
            else:
                for i in range(n - 1):
                    if bool(j <= t[k][i + 1]):
                        want = cur[k][i] + (cur[k][i + 1] - cur[k][i]) * (j - t[k][i]) / (t[k][i + 1] - t[k][i])
                        break
            c.require(f"{k} at second {j}", close(got[j], want, 1e-6))
    c.cover("reached")


# ---------------------------------------------------------------- stand-ins of symbolic runs
def np_gradient(orig):
    def f(v, *xs, **k):
        if not SP.has_sym(v):
            return orig(v, *xs, **k)
        y = list(v)
        n = len(y)
        x = [float(q) for q in xs[0]] if xs and np.ndim(xs[0]) else [i * (xs[0] if xs else 1) for i in range(n)]
        out = np.empty(n, dtype=object)
        for i in range(n):
            if i in (0, n - 1):
                p, q = (0, 1) if i == 0 else (n - 2, n - 1)
                out[i] = (y[q] - y[p]) / (x[q] - x[p])
            else:
                hs, hd = x[i] - x[i - 1], x[i + 1] - x[i]
                out[i] = (hs ** 2 * y[i + 1] + (hd ** 2 - hs ** 2) * y[i] - hd ** 2 * y[i - 1]) / (hs * hd * (hd + hs))
        return out
    return f


def np_clip(orig):
    def f(a, lo, hi, *r, **k):
        if not (SP.has_sym(a) or SP.has_sym(lo) or SP.has_sym(hi)):
            return orig(a, lo, hi, *r, **k)
        out = np.empty(len(a), dtype=object)
        for i, x in enumerate(a):
            out[i] = smin([smax([x, lo]), hi])
        return out
    return f


def np_nan_to_num(orig):
    def f(a, copy=True, nan=0.0, **k):
        if not SP.has_sym(a):
            return orig(a, copy=copy, nan=nan, **k)
        out = np.array(a, dtype=object)
        for i in np.ndindex(out.shape):
            if is_nan(out[i]) is True:
                out[i] = nan
        return out
    return f


def np_heaviside(orig):
    def one(x, h):
        return 1.0 if x > 0 else 0.0 if x < 0 else h

    def f(x, h, *a, **k):
        if not (SP.has_sym(x)):
            return orig(x, h, *a, **k)
        x = np.asarray(x, dtype=object)
        out = np.empty(x.shape)
        for i in np.ndindex(x.shape):
            out[i] = one(x[i], h)
        return out
    return f


def np_zeros(orig):
    def f(shape, dtype=None, *a, **k):
        if core.CTX is not None and core.CTX.symbolic and dtype is None and not a and not k:
            out = np.empty(shape, dtype=object)
            out.fill(0.0)
            return out
        return orig(shape, dtype or float, *a, **k)
    return f


class NP:
    """numpy as the wave module sees it in a symbolic run"""

    def __init__(self, **own):
        self.own = own

    def __getattr__(self, k):
        return self.own[k] if k in self.own else getattr(np, k)


class Pchip:
    def __init__(self, x, y, axis=0, extrapolate=None):
        self.x, self.y, self.ext = [float(q) for q in x], list(y), extrapolate
        if any(q <= p for p, q in zip(self.x, self.x[1:])):
            raise ValueError("`x` must be strictly increasing sequence.")

    def one(self, q):
        if q < self.x[0] or q > self.x[-1]:
            if self.ext in (None, True):
                raise core.Unsupported("extrapolation")
            return float("nan")
        for a, b in zip(self.x, self.y):
            if a == q:
                return b
        i = max(j for j in range(len(self.x)) if self.x[j] < q)
        r = core.CTX.uf(f"pchip_{len(self.x)}_{i}_{q!r}_{self.x!r}", *self.y)
        core.CTX.assume(all_of(r >= smin([self.y[i], self.y[i + 1]]), r <= smax([self.y[i], self.y[i + 1]])))
        return r

    def __call__(self, q):
        q = np.asarray(q, dtype=float)
        if not q.ndim:
            return self.one(float(q))
        out = np.empty(q.shape, dtype=object)
        for i in np.ndindex(q.shape):
            out[i] = self.one(float(q[i]))
        return out


def fsolve(func, x0, args=(), **k):
    r = core.CTX.real("offset", -1, 1)
    core.CTX.assume(func(r, *args) == 0)
    return np.array([r], dtype=object)


def pats():
    return cli_patches() + [(np, "gradient", np_gradient(np.gradient))]


def wave_pats():
    import beep.utils.waveform as W
    import types
    pc = W.interpolate.PchipInterpolator

    def pchip(x, y, **k):
        return Pchip(x, y, **k) if SP.has_sym(y) else pc(x, y, **k)
    return pats() + [(W, "np", NP(zeros=np_zeros(np.zeros), heaviside=np_heaviside(np.heaviside))), (np, "clip", np_clip(np.clip)), (np, "nan_to_num", np_nan_to_num(np.nan_to_num)),
                     (W.interpolate, "PchipInterpolator", pchip), (W, "fsolve", fsolve)]


def known_harnesses():
    return [dict(name="clash", fn=clash, params={}, patches=pats)]


def harnesses(tier):
    deep = tier == "thorough"
    H = [dict(name=f"wave_{k}", fn=wave, params=dict(n=n, kind=k), patches=pats, weight=5) for k in ("power", "current") for n in ((2, 3, 4) if deep else (3,))]
    H += [dict(name="velocity", fn=velocity, params=dict(n=5 if deep else 4), patches=pats, weight=3),
          dict(name="drive", fn=drive, params=dict(calls=1, repeats=[1, 2, 3], watts=[16]), patches=pats, weight=5),
          dict(name="drive_twice", fn=drive, params=dict(calls=2, repeats=[1, 2] if deep else [2], watts=[16, 17]), patches=pats, weight=6),
          dict(name="charge", fn=charge, params=dict(n=3 if deep else 2), patches=pats, weight=5),
          dict(name="multistep", fn=multistep, params=dict(points=9 if deep else 6, windows=3), patches=wave_pats, weight=5),
          dict(name="times", fn=times, params=dict(points=7 if deep else 5), patches=wave_pats),
          dict(name="smooth", fn=smooth, params=dict(points=9), patches=wave_pats, weight=4),
          dict(name="matched", fn=matched, params=dict(points=5), patches=wave_pats, weight=5),
          dict(name="uniform", fn=uniform, params=dict(points=4 if deep else 3), patches=wave_pats, weight=6)]
    return H
