"""P14: Maccor procedures carry the requested parameters."""
import os
from .common import *
from .memfs import scratch, mem_patches
from .proc import *

BOUNDS = {"all": "the shipped templates; every regular-cycle and diagnostic parameter symbolic (currents 0.1-5 C, times up "
                 "to 4000 min, capacity 0.5-10 Ah), protocol index 0-400"}
OUTSIDE = "other templates; the physical meaning of the templates' fixed entries"
ASSUMPTIONS = ["xml text renders and reads back numbers exactly",
               "the interval discharge of HPPC is specified one second shorter, as the code's comment-free constant has it"]


def T(name):
    from beep.protocol import maccor as M
    return M.Procedure.from_file(os.path.join(M.PROCEDURE_TEMPLATE_DIR, name))


def series(P):
    return pd.Series(P, dtype=object)


def regular(c):
    """regular cycles: requested parameters everywhere, nothing else changed"""
    from beep.protocol import maccor as M
    kind = c.params["kind"]
    P = reg_params(c)
    c.assume(P["charge_cutoff_voltage"] > P["discharge_cutoff_voltage"] + 0.01)
    ps = series(P)
    x = Expect()
    if kind == "v2":
        t = "diagnosticV2.000"
        p = M.Procedure.from_regcyclev2(ps)
    else:
        t = c.params["template"]
        idx = c.int("index", 0, 400)
        tp = os.path.join(M.PROCEDURE_TEMPLATE_DIR, t)
        p = M.Procedure.generate_procedure_regcyclev3(idx, ps, template=tp if c.params.get("give") else None)
        x.time(0, 0, 3 * 3600 + 720 * (idx % 96))
    x.val(1, P["capacity_nominal"])
    for b, count in ((28, "diagnostic_start_cycle"), (60, "diagnostic_interval")):
        exp_charge(x, b, P, kind != "v2")
        exp_discharge(x, b + 4, P)
        exp_loop(x, b + 4, P, count)
    exp_storage(x, 69 if kind == "v2" else 93, P, kind != "v2")
    compare(c, kind, p, T(t), x)
    c.require("parameters unchanged", all_of([same_cell(ps[k], P[k]) for k in P]) and list(ps.index) == list(P))
    c.cover("long rest", P["charge_rest_time"] > 1440)


def wave(c):
    """driving and charging procedures: waveform steps and the remaining parameters"""
    from beep.protocol import maccor as M
    kind = c.params["kind"]
    P = reg_params(c)
    c.assume(P["charge_cutoff_voltage"] > P["discharge_cutoff_voltage"] + 0.01)
    x = Expect()
    idx = c.int("index", 0, 400)
    x.time(0, 0, 3 * 3600 + 720 * (idx % 96))
    x.val(1, P["capacity_nominal"])
    with scratch(c) as d:
        os.makedirs(os.path.join(d.tmp, "v1.2"), exist_ok=True)
        name = "US06_x4_32W"
        top = c.real("wave_limit", 2, 4.9)
        f = d.write("v1.2/" + name + ".MWF", "\t".join(["C", "I", "1.0", "V", txt_num(top), "S", "1"]) + "\n")
        if kind == "driving":
            t = "drivingV1.000"
            c.assume(P["charge_constant_current_1"] <= P["charge_constant_current_2"])
            p = M.Procedure.generate_procedure_drivingv1(idx, series(P), f)
        else:
            t = "diagnosticV4.000"
            for k in ("charge_constant_current_1", "charge_constant_current_2", "charge_percent_limit_1"):
                P.pop(k)
            P["charge_current_param_4"] = c.real("c4", 0.1, 3)
            P["charge_fast_soc_limit"] = c.real("fast", 5, 90)
            c.assume(top < P["charge_cutoff_voltage"] - 0.01)
            p = M.Procedure.generate_procedure_chargingv1(idx, series(P), f)
    for b, count in ((28, "diagnostic_start_cycle"), (60, "diagnostic_interval")):
        if kind == "driving":
            exp_charge(x, b, P, True)
            exp_wave(x, b + 4, name)
        else:
            exp_charge(x, b, dict(P, charge_constant_current_1=1, charge_constant_current_2=P["charge_current_param_4"],
                                  charge_percent_limit_1=P["charge_fast_soc_limit"]), True)
            for k in [k for k in x.want if k[:2] == ("TestStep", b)]:
                del x.want[k]
            exp_wave(x, b, name)
            exp_discharge(x, b + 4, P)
        exp_loop(x, b + 4, P, count)
    exp_storage(x, 93, P, True)
    compare(c, kind, p, T(t), x)
    c.cover("reached")


def txt_num(v):
    return str(v) if symbolic(v) else repr(float(v))


def refused(c):
    """inconsistent voltages or rates are refused"""
    from beep.protocol import maccor as M
    P = reg_params(c)
    kind = c.params["kind"]
    bad = c.choice("bad", ["voltages", "rates"] if kind == "driving" else ["voltages"])
    if bad == "voltages":
        c.assume(P["charge_cutoff_voltage"] <= P["discharge_cutoff_voltage"])
    else:
        c.assume(P["charge_cutoff_voltage"] > P["discharge_cutoff_voltage"])
        c.assume(P["charge_constant_current_1"] > P["charge_constant_current_2"])
    f = {"v2": lambda: M.Procedure.from_regcyclev2(series(P)),
         "v3": lambda: M.Procedure.generate_procedure_regcyclev3(0, series(P)),
         "driving": lambda: M.Procedure.generate_procedure_drivingv1(0, series(P), "w.MWF")}[kind]
    r, _ = raises((AssertionError,), f)
    c.require("refused", r)
    c.cover("reached")


def diagnostic(c):
    """diagnostic cycles: requested parameters at each diagnostic, nothing else changed"""
    from beep.protocol import maccor as M
    D = diag_params(c)
    cap = c.real("cap", 0.5, 10)
    t = c.params["template"]
    p = T(t)
    x = Expect()
    if c.params["v"] == 2:
        p.add_procedure_diagcyclev2(cap, series(D))
        starts = [(4, 8, 18), (37, 40, 50)]
    else:
        p.generate_procedure_diagcyclev3(cap, series(D))
        starts = [(4, 8, 18), (37, 40, 50), (70, 74, 84)]
    for a, b, e in starts:
        exp_reset(x, a, cap, D)
        exp_hppc(x, b, cap, D)
        exp_rpt(x, e, cap, D)
    compare(c, "diagnostic", p, T(t), x)
    c.cover("reached")


def exp_proc(c):
    """EXP procedures: cutoff voltage on the limited charge steps, rates inside the main loop only"""
    from beep.protocol import maccor as M
    v, cr, dr = c.real("v", 3, 5), c.real("cr", 0.1, 5), c.real("dr", 0.1, 5)
    p = M.Procedure.from_exp(v, cr, dr)
    t = T("EXP.000")
    s = steps_of(t)
    a, b = [i for i, z in enumerate(s) if z["StepType"] == "Do 1"][0], [i for i, z in enumerate(s) if z["StepType"] == "Loop 1"][0]
    x = Expect()
    n = 0
    for i, z in enumerate(s):
        if z["StepType"] == "Charge" and z["Limits"] is not None and "Voltage" in z["Limits"]:
            x.limit(i, "Voltage", v, 1e-9)
            n += 1
        if z["StepMode"] == "Current" and a < i < b:
            if z["StepType"] == "Charge":
                x.val(i, cr, 1e-9)
            if z["StepType"] == "Dischrge":
                x.val(i, dr, 1e-9)
    compare(c, "exp", p, t, x)
    c.require("some step is limited", n > 0)
    c.cover("reached")


def skip_to_end(c):
    """the voltage limits that jump to the ending diagnostic are all set, others are not"""
    p, t = T("diagnosticV3.000"), T("diagnosticV3.000")
    hi, lo = c.real("hi", 3, 5), c.real("lo", 1, 3)
    key = c.choice("key", ["070", "037"])
    new = c.choice("new", [None, "095"])
    p.set_skip_to_end_diagnostic(hi, lo, step_key=key, new_step_key=new)
    x = Expect()
    n = 0
    for i, s in enumerate(steps_of(t)):
        e = s["Ends"]
        for j, z in enumerate(e["EndEntry"] if e and isinstance(e["EndEntry"], list) else []):
            if z["Step"] == key and z["EndType"] == "Voltage" and z["Oper"] in (">=", "<="):
                x.end(i, j, hi if z["Oper"] == ">=" else lo, 1e-9)
                n += 1
                if new:
                    x.text(i, END + (j, "Step"), new)
    compare(c, "skip", p, t, x)
    c.cover("set", n > 0)


def round_trip(c):
    """writing and reading a procedure keeps every entry"""
    from beep.protocol import maccor as M
    P = reg_params(c)
    c.assume(P["charge_cutoff_voltage"] > P["discharge_cutoff_voltage"] + 0.01)
    p = M.Procedure.from_regcyclev2(series(P)) if c.params["t"] == "v2" else T(c.params["t"])
    before = {k: v for k, v in leaves(p)}
    with scratch(c) as d:
        f = d.path("a.000")
        p.to_file(f)
        q = M.Procedure.from_file(f)
        text = d.read(f)
    after = {k: v for k, v in leaves(q)}
    c.require("the procedure itself is unchanged", all_of(
        [k in before and same_cell(v, before[k]) for k, v in leaves(p)]))
    c.require("same entries", sorted(map(str, before)) == sorted(map(str, after)))
    for k, v in before.items():
        if k not in after:
            continue
        g = after[k]
        if v is None or v == "":
            c.require(f"{k} empty", g is None or g == "")
        elif isinstance(v, str) and ":" not in v:
            c.require(f"{k} text", str(g).strip() == v.strip())
        elif isinstance(v, str):
            c.require(f"{k} text", g == v)
        else:
            c.require(f"{k} number", close(value(g), v, 1e-9))
    c.require("maccor processing instruction on line 2",
              text.split("\n")[1] == '<?maccor-application progid="Maccor Procedure File"?>')
    c.cover("reached")


def modify(c):
    p, t = T("EXP.000"), T("EXP.000")
    v = c.real("v", 0, 5)
    s = steps_of(t)
    i = c.choice("i", list(range(0, len(s), 3)))
    ty = c.choice("type", ["Charge", "Rest", "Dischrge"])
    p.modify_step_value(i, ty, v)
    x = Expect()
    if s[i]["StepType"] == ty:
        x.val(i, v, 1e-9)
        c.cover("set")
    compare(c, "modify", p, t, x)


def harnesses(tier):
    hs = [dict(name="regular_v2", fn=regular, params=dict(kind="v2")),
          dict(name="regular_v3", fn=regular, params=dict(kind="v3", template="diagnosticV3.000")),
          dict(name="regular_v4", fn=regular, params=dict(kind="v3", template="diagnosticV4.000", give=True)),
          dict(name="driving", fn=wave, params=dict(kind="driving"), patches=mem_patches),
          dict(name="charging", fn=wave, params=dict(kind="charging"), patches=mem_patches),
          dict(name="diagnostic_v2", fn=diagnostic, params=dict(v=2, template="diagnosticV2.000")),
          dict(name="diagnostic_v3", fn=diagnostic, params=dict(v=3, template="diagnosticV3.000")),
          dict(name="exp", fn=exp_proc), dict(name="skip", fn=skip_to_end), dict(name="modify", fn=modify),
          dict(name="round_trip_v2", fn=round_trip, params=dict(t="v2"), patches=mem_patches)]
    for t in ("EXP.000", "diagnosticV3.000", "drivingV1.000"):
        hs.append(dict(name="round_trip_" + t, fn=round_trip, params=dict(t=t), patches=mem_patches))
    for k in ("v2", "v3", "driving"):
        hs.append(dict(name="refused_" + k, fn=refused, params=dict(kind=k)))
    return hs
