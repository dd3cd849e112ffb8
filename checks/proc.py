"""Maccor procedures: reading values, and comparing a generated procedure with its template."""
from .common import *
from .memfs import cell


def value(v):
    """number of a procedure entry (text or number)"""
    v = pyval(v)
    if isinstance(v, str):
        g = cell(v)
        if g is not None:
            return g
        return float(v)
    return v


def hms(v):
    """(seconds, is a valid h:m:s text)"""
    parts = str(v).split(":")
    if len(parts) != 3:
        return None, False
    h, m, s = [value(p) for p in parts]
    return 3600 * h + 60 * m + s, all_of(h >= 0, m >= 0, m < 60, s >= 0, s < 60)


def steps_of(p):
    return p["MaccorTestProcedure"]["ProcSteps"]["TestStep"]


def leaves(o, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            yield from leaves(v, path + (k,))
        if not o:
            yield path, {}
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            yield from leaves(v, path + (i,))
        if not o:
            yield path, []
    else:
        yield path, o


END = ("Ends", "EndEntry")


class Expect:
    """the entries of a procedure that the parameters decide"""
    def __init__(self):
        self.want = {}

    def num(self, i, path, v, tol):
        self.want[("TestStep", i) + path] = ("num", v, tol)

    def val(self, i, v, tol=0.00051):
        self.num(i, ("StepValue",), v, tol)

    def end(self, i, n, v, tol=0.00051):
        self.num(i, END + ((n,) if n is not None else ()) + ("Value",), v, tol)

    def limit(self, i, what, v, tol=0.00051):
        self.num(i, ("Limits", what), v, tol)

    def time(self, i, n, v, scale=1, tol=0.5):
        """scale * seconds = v (v exact, no division)"""
        self.want[("TestStep", i) + END + ((n,) if n is not None else ()) + ("Value",)] = ("time", v, (scale, tol))

    def text(self, i, path, v):
        self.want[("TestStep", i) + path] = ("text", v, None)


def compare(c, tag, proc, template, ex, free=()):
    """every entry is as expected; those without an expectation are the template's"""
    got = dict(leaves(proc["MaccorTestProcedure"]["ProcSteps"]))
    ref = dict(leaves(template["MaccorTestProcedure"]["ProcSteps"]))
    for k in [k for k in ex.want if any(f[:len(k)] == k for f in list(ref) + list(got)) and k not in ref]:
        for f in [f for f in ref if f[:len(k)] == k]:
            del ref[f]
        ref[k] = None
    c.require(f"{tag}: same steps and fields as the template", sorted(map(str, got)) == sorted(map(str, ref)))
    for k in got:
        if k in ex.want:
            kind, v, t = ex.want[k]
            if kind == "num":
                c.require(f"{tag}: {k}", close(value(got[k]), v, t))
            elif kind == "text":
                c.require(f"{tag}: {k}", got[k] == v)
            else:
                secs, ok = hms(got[k])
                c.require(f"{tag}: {k} is h:m:s", ok)
                if secs is None:
                    continue
                scale, tol = t
                e = secs * scale - v
                c.require(f"{tag}: {k}", all_of(e <= (tol + 1e-6) * scale, e >= -(tol + 1e-6) * scale))
        elif k in ref:
            c.require(f"{tag}: {k} is the template's", got[k] == ref[k])
    a = {k: v for k, v in leaves({k: v for k, v in proc["MaccorTestProcedure"].items() if k != "ProcSteps"})}
    b = {k: v for k, v in leaves({k: v for k, v in template["MaccorTestProcedure"].items() if k != "ProcSteps"})}
    c.require(f"{tag}: header is the template's", a == b)


def reg_params(c, extra=()):
    """regular-cycle parameters, all symbolic"""
    P = {"charge_constant_current_1": c.real("cc1", 0.1, 5), "charge_percent_limit_1": c.real("pct", 1, 100),
         "charge_constant_current_2": c.real("cc2", 0.1, 5), "charge_cutoff_voltage": c.real("vmax", 3, 5),
         "charge_constant_voltage_time": c.int("cvt", 0, 4000), "charge_rest_time": c.int("crest", 0, 4000),
         "discharge_constant_current": c.real("dc", 0.1, 5), "discharge_cutoff_voltage": c.real("vmin", 1, 4),
         "discharge_rest_time": c.int("drest", 0, 4000), "cell_temperature_nominal": 25,
         "capacity_nominal": c.real("cap", 0.5, 10), "diagnostic_start_cycle": c.int("start", 1, 500),
         "diagnostic_interval": c.int("interval", 1, 500)}
    return P


def diag_params(c):
    D = {k: c.real(k, lo, hi) for k, lo, hi in (
        ("diagnostic_charge_cutoff_voltage", 3, 5), ("diagnostic_discharge_cutoff_voltage", 1, 4),
        ("diagnostic_cutoff_current", 0.001, 0.2), ("reset_cycle_current", 0.01, 1),
        ("reset_cycle_cutoff_current", 0.001, 0.2), ("HPPC_baseline_constant_current", 0.1, 3),
        ("HPPC_pulse_current_1", 0.1, 3), ("HPPC_pulse_current_2", 0.1, 3), ("HPPC_interval", 1, 50),
        ("HPPC_pulse_cutoff_voltage", 3, 5), ("RPT_charge_constant_current", 0.1, 3),
        ("RPT_discharge_constant_current_1", 0.1, 3), ("RPT_discharge_constant_current_2", 0.1, 3),
        ("RPT_discharge_constant_current_3", 0.1, 3))}
    D["HPPC_rest_time"] = c.int("HPPC_rest_time", 0, 4000)
    for k in ("HPPC_pulse_duration_1", "HPPC_pulse_duration_2", "HPPC_pulse_rest_time"):
        D[k] = c.int(k, 0, 100000)
    # an interval lasts at least a second
    c.assume(36 * D["HPPC_interval"] >= 3 * D["HPPC_baseline_constant_current"])
    return D


def exp_charge(x, b, P, v3):
    cap = P["capacity_nominal"]
    x.val(b, P["charge_constant_current_1"] * cap)
    x.time(b, 0, 36 * P["charge_percent_limit_1"], P["charge_constant_current_1"])
    if v3:
        x.end(b, 1, P["charge_cutoff_voltage"])
    x.val(b + 1, P["charge_constant_current_2"] * cap)
    x.end(b + 1, 0, P["charge_cutoff_voltage"])
    x.val(b + 2, P["charge_cutoff_voltage"])
    x.time(b + 2, 0, 60 * P["charge_constant_voltage_time"])
    x.time(b + 3, 0, 60 * P["charge_rest_time"])


def exp_discharge(x, b, P):
    x.val(b, P["discharge_constant_current"] * P["capacity_nominal"])
    x.end(b, 0, P["discharge_cutoff_voltage"])


def exp_loop(x, b, P, count):
    """rest after the discharge at b, and the number of cycles"""
    x.time(b + 1, 0, 60 * P["discharge_rest_time"])
    x.num(b + 3, END + ("Value",), P[count], 1e-9)


def exp_storage(x, b, P, v3):
    cap = P["capacity_nominal"]
    x.val(b, 0.5 * cap)
    x.limit(b, "Voltage", P["discharge_cutoff_voltage"])
    x.end(b, 0 if v3 else None, 0.05 * cap)
    x.val(b + 1, 0.5 * cap)
    x.time(b + 1, 0, 720)


def exp_reset(x, b, cap, D):
    x.val(b, cap * D["reset_cycle_current"], 0.000051)
    x.limit(b, "Voltage", D["diagnostic_charge_cutoff_voltage"])
    x.end(b, 0, cap * D["reset_cycle_cutoff_current"], 0.000051)
    x.val(b + 1, cap * D["reset_cycle_current"], 0.000051)
    x.end(b + 1, 0, D["diagnostic_discharge_cutoff_voltage"])


def exp_hppc(x, b, cap, D):
    i0 = cap * D["HPPC_baseline_constant_current"]
    low = D["diagnostic_discharge_cutoff_voltage"]
    x.val(b, i0)
    x.limit(b, "Voltage", D["diagnostic_charge_cutoff_voltage"])
    x.end(b, 0, cap * D["diagnostic_cutoff_current"])
    x.time(b + 2, 0, 60 * D["HPPC_rest_time"])
    x.val(b + 3, cap * D["HPPC_pulse_current_1"])
    x.time(b + 3, 0, D["HPPC_pulse_duration_1"])
    x.end(b + 3, 1, low)
    x.time(b + 4, 0, D["HPPC_pulse_rest_time"])
    x.val(b + 5, cap * D["HPPC_pulse_current_2"])
    x.time(b + 5, 0, D["HPPC_pulse_duration_2"])
    x.end(b + 5, 1, D["HPPC_pulse_cutoff_voltage"])
    x.val(b + 6, i0)
    # the state of charge interval, up to the second the code leaves off
    x.time(b + 6, 0, 36 * D["HPPC_interval"] - D["HPPC_baseline_constant_current"], D["HPPC_baseline_constant_current"])
    x.end(b + 6, 1, low)
    x.val(b + 8, low)
    x.limit(b + 8, "Current", i0)
    x.end(b + 8, 0, cap * D["diagnostic_cutoff_current"])


def exp_rpt(x, b, cap, D):
    for k in range(3):
        x.val(b + 3 * k, cap * D["RPT_charge_constant_current"])
        x.limit(b + 3 * k, "Voltage", D["diagnostic_charge_cutoff_voltage"])
        x.end(b + 3 * k, 0, cap * D["diagnostic_cutoff_current"])
        x.val(b + 3 * k + 1, cap * D[f"RPT_discharge_constant_current_{k + 1}"])
        x.end(b + 3 * k + 1, 0, D["diagnostic_discharge_cutoff_voltage"])


def exp_wave(x, i, name):
    for f in ("Ends", "Reports"):
        x.text(i, (f,), None)
    x.text(i, ("StepType",), "FastWave")
    for f in ("StepMode", "Range", "Option1", "Option2", "Option3"):
        x.text(i, (f,), "")
    x.text(i, ("StepValue",), name)
