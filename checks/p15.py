"""P15: Biologic settings and Arbin schedules carry the requested parameters and survive the file."""
import glob
import os
from collections import OrderedDict
from .common import *
from .memfs import scratch, mem_patches, txt
from .proc import leaves, value

BOUNDS = {"all": "the shipped formation settings and fast-charge schedule; every parameter symbolic (rates 0.01-5, capacity "
                 "0.05-10 Ah, voltages 1-5 V, minutes up to 5000, 1-500 repetitions; currents and capacities of the fast "
                 "charge 0-20 with 3 digits, digit-accurate); files of 1, 2 and 11 techniques with 1-3 steps and 1-3 entries, "
                 "schedules of up to 4 labelled steps with 2 limits"}
OUTSIDE = "metadata lines that repeat or have a colon without surrounding blanks; entries wider than the 20-character column"
ASSUMPTIONS = ["the text encoding is exercised with utf-8 in symbolic runs (the placeholders of symbolic numbers have no "
               "latin-1 form) and with the default one in replays"]

NOMINAL = "capacity_nominal"
#          step, field, parameter, times capacity
FORMATION = [
    (2, "ctrl1_val", "initial_charge_current_1", True), (2, "lim1_value", "initial_charge_voltage_1", False),
    (3, "ctrl1_val", "initial_charge_voltage_1", False), (3, "lim1_value", "initial_charge_cvhold_1", False),
    (4, "lim1_value", "initial_charge_rest_1", False),
    (5, "ctrl1_val", "initial_charge_current_2", True), (5, "lim1_value", "initial_charge_voltage_2", False),
    (6, "ctrl1_val", "initial_charge_voltage_2", False), (6, "lim1_value", "initial_charge_cvhold_2", False),
    (7, "lim1_value", "initial_charge_rest_2", False),
    (8, "ctrl1_val", "initial_discharge_current_1", True), (8, "lim1_value", "initial_discharge_voltage_1", False),
    (9, "ctrl1_val", "mid_charge_current_1", True), (9, "lim1_value", "mid_charge_voltage_1", False),
    (10, "ctrl1_val", "mid_discharge_current_1", True), (10, "lim1_value", "mid_discharge_voltage_1", False),
    (12, "ctrl1_val", "final_charge_current_1", True), (12, "lim1_value", "final_charge_voltage_1", False),
    (13, "ctrl1_val", "final_discharge_current_1", True), (13, "lim1_value", "final_discharge_voltage_1", False),
    (14, "ctrl1_val", "final_discharge_voltage_1", False), (14, "lim1_value", "final_discharge_cvhold_1", False)]


def enc(c):
    return dict(encoding="utf-8") if c.symbolic else {}


def template():
    from beep.protocol import BIOLOGIC_TEMPLATE_DIR, biologic as B
    return B.Settings.from_file(os.path.join(BIOLOGIC_TEMPLATE_DIR, "formationV1.mps"))


def formation_params(c):
    P = {}
    for _, _, k, rate in FORMATION:
        if rate:
            P[k] = c.real(k, 0.01, 5)
        elif "voltage" in k:
            P[k] = c.real(k, 1, 5)
        else:
            P[k] = c.real(k, 0, 5000)
    P[NOMINAL] = c.real("cap", 0.05, 10)
    P["mid_cycle_reps"] = c.int("reps", 1, 500)
    return P


def formation_expect(P):
    want = {("Technique", "1", "Step", str(s), f): (P[k] * P[NOMINAL] if rate else P[k]) for s, f, k, rate in FORMATION}
    want[("Technique", "1", "Step", "11", "ctrl_repeat")] = P["mid_cycle_reps"] - 1
    return want


def check_formation(c, tag, got, ref, want):
    got, ref = dict(leaves(got)), dict(leaves(ref))
    c.require(f"{tag}: same entries as the template", list(got) == list(ref))
    for k, v in got.items():
        if k in want:
            tol = 1e-9 if k[-1] == "ctrl_repeat" else 0.00051
            c.require(f"{tag}: {'.'.join(k)}", close(value(v), want[k], tol))
        else:
            c.require(f"{tag}: {'.'.join(k)} is the template's", v == ref.get(k))


def formation(c):
    """formation settings: requested parameters, nothing else changed, also in the file"""
    from beep.protocol import biologic as B
    P = formation_params(c)
    ps = pd.Series(P, dtype=object)
    s = template().formation_protocol_bcs(ps)
    want = formation_expect(P)
    check_formation(c, "settings", s, template(), want)
    c.require("parameters unchanged", all_of([same_cell(ps[k], P[k]) for k in P]))
    with scratch(c) as d:
        f = d.path("a.mps")
        s.to_file(f, **enc(c))
        q = B.Settings.from_file(f, **enc(c))
    check_formation(c, "written", s, template(), want)
    check_formation(c, "read back", q, template(), want)
    c.cover("reached")


def settings_file(c):
    """any settings file: entries end up under their technique, step and name, and are written back"""
    from beep.protocol import biologic as B
    nt = c.choice("techniques", [1, 2, 11])
    nf = c.choice("fields", [1, 3])
    text = ["BT-LAB SETTING FILE", "", f"Number of linked techniques : {nt}", "Device : BCS-815", "Comments : ", ""]
    tail = c.bool("tail")
    want, vals = OrderedDict(), {}
    for t in range(1, nt + 1):
        ns = c.choice(f"steps{t}", [1, 2, 3] if nt < 3 else [1, 3]) if t < 3 else 1
        text += [f"Technique : {t}", f"Type {t}"]
        names = ["Ns"] + [f"field_{i}" for i in range(nf)]
        for fn in names:
            row = fn.ljust(20)
            for st in range(1, ns + 1):
                v = str(st - 1) if fn == "Ns" else c.real(f"v_{t}_{st}_{fn}", 0, 1000) if t < 3 else f"{t}.{st}"
                if not symbolic(v) and not isinstance(v, str):
                    v = repr(round(v, 6))
                want[(str(t), str(st), fn)] = v
                row += (v if isinstance(v, str) else txt(v)).ljust(20)
            text.append(row)
        if t < nt:
            text.append("")
    if tail:
        text += ["", "Last : 1 2"]
    n = nf + 2
    raw = "\r\n".join(text)
    with scratch(c) as d:
        f = d.write("a.mps", raw)
        s = B.Settings.from_file(f, step_entry_length=n, **enc(c))
        g = d.path("b.mps")
        s.to_file(g, **enc(c))
        out = d.read(g)
        q = B.Settings.from_file(g, step_entry_length=n, **enc(c))
    for tag, z in (("read", s), ("written and read", q)):
        tq = z["Technique"]
        c.require(f"{tag}: techniques", sorted(tq) == sorted(str(t) for t in range(1, nt + 1)))
        have = {(t, st, fn): v for t in tq for st, e in tq[t]["Step"].items() for fn, v in e.items()}
        c.require(f"{tag}: entries", sorted(have) == sorted(want))
        for k, v in want.items():
            g = have.get(k)
            c.require(f"{tag}: {k}", g is not None and (g == v if isinstance(v, str) else close(value(g), v, 1e-9)))
        for t in tq:
            c.require(f"{tag}: type", tq[t]["Type"] == f"Type {t}")
        c.require(f"{tag}: device", z["Metadata"].get("Device") == "BCS-815")
        c.require(f"{tag}: tail", not tail or z["Metadata"].get("Last") == "1 2")
    c.require("the file comes back as it was", out == raw)
    c.cover("two techniques", nt == 2)
    c.cover("numbers of two digits", nt == 11)


# ------------------------------------------------------------------ Arbin

def schedule_template():
    from beep.protocol import SCHEDULE_TEMPLATE_DIR
    return os.path.join(SCHEDULE_TEMPLATE_DIR, "20170630-3_6C_9per_5C.sdu")


def fast_charge(c):
    """fast-charge schedule: first and second current and the capacity limit, digit by digit"""
    from beep.protocol import arbin as A
    hi = 20.0
    v = {"CC1": 4.4, "CAP": 0.55, "CC2": 3.3}
    for k in c.params["sym"]:
        v[k] = c.real(k, 0, hi)
    t = schedule_template()
    s = A.Schedule.from_fast_charge(v["CC1"], v["CAP"], v["CC2"], t)
    ref = A.Schedule.from_file(t)
    want = {}
    for st, e in ref["Schedule"].items():
        if isinstance(e, dict) and e.get("m_szLabel") in ("CC1", "CC2"):
            want[("Schedule", st, "m_szCtrlValue")] = v[e["m_szLabel"]]
            if e["m_szLabel"] == "CC1":
                for l, z in e.items():
                    if isinstance(z, dict) and z["m_bStepLimit"] == "1" and z["Equation0_szLeft"] == "PV_CHAN_Charge_Capacity":
                        want[("Schedule", st, l, "Equation0_szRight")] = v["CAP"]
    c.require("template has the three places", len(want) == 3)
    with scratch(c) as d:
        f = d.path("a.sdu")
        s.to_file(f, **enc(c))
        q = A.Schedule.from_file(f, **enc(c))
    b = dict(leaves(ref))
    for tag, z in (("schedule", s), ("file", q)):
        a = dict(leaves(z))
        c.require(f"{tag}: same entries as the template", list(a) == list(b))
        for k, g in a.items():
            if k in want:
                c.require(f"{tag}: {'.'.join(k)}", close(value(g), want[k], 0.00051))
            elif k[-1] == "Equation0_szCompareSign" and k[:-1] + ("Equation0_szRight",) in want:
                c.require(f"{tag}: limit is an upper one", g == ">")
            else:
                c.require(f"{tag}: {'.'.join(k)} is the template's", g == b.get(k))
    c.cover("reached")


def labelled(c):
    """labels: the first (or every) step of that label is set, and its step limits of the variable"""
    from beep.protocol import arbin as A
    n = c.params["n"]
    LV = ["A", "A2", "B"] if n < 4 else ["A", "A2", "xA", "a", "B"]
    VAR = ["X", "Y"]
    lab = [c.choice(f"label{i}", LV) for i in range(n)]
    lim = [[(c.choice(f"stop{i}_{j}", ["0", "1"]), c.choice(f"var{i}_{j}", VAR)) for j in range(2)] for i in range(n)] \
        if c.params["what"] == "limits" else [[("1", "X"), ("0", "X")]] * n
    v = c.real("v", 0, 10)
    s = A.Schedule()
    for i in range(n):
        s.set(f"Schedule.Step{i}", OrderedDict([("m_szLabel", lab[i]), ("m_szCtrlValue", str(i))]))
        for j in range(2):
            s.set(f"Schedule.Step{i}.Limit{j}", OrderedDict([("m_bStepLimit", lim[i][j][0]), ("Equation0_szLeft", lim[i][j][1]),
                                                              ("Equation0_szCompareSign", "<"), ("Equation0_szRight", "7")]))
    before = dict(leaves(s))
    val = txt(v)
    want = {}
    if c.params["what"] == "steps":
        mode = c.choice("mode", ["first", "all"])
        s.set_labelled_steps("A", "m_szCtrlValue", val, mode=mode)
        idx = [i for i in range(n) if lab[i] == "A"]
        for i in idx[:1] if mode == "first" else idx:
            want[("Schedule", f"Step{i}", "m_szCtrlValue")] = val
        c.cover("several", len(idx) > 1)
    else:
        s.set_labelled_limits("A", "X", ">", val)
        for i in range(n):
            for j in range(2):
                if lab[i] == "A" and lim[i][j] == ("1", "X"):
                    want[("Schedule", f"Step{i}", f"Limit{j}", "Equation0_szRight")] = val
                    want[("Schedule", f"Step{i}", f"Limit{j}", "Equation0_szCompareSign")] = ">"
        c.cover("set", len(want) > 0)
    a = dict(leaves(s))
    c.require("same entries", list(a) == list(before))
    for k, g in a.items():
        c.require(f"{k}", g == want.get(k, before[k]))


def harnesses(tier):
    deep = tier == "thorough"
    H = [dict(name="formation", fn=formation, patches=mem_patches, weight=4),
         dict(name="settings_file", fn=settings_file, patches=mem_patches, weight=4)]
    for k in ("CC1", "CAP", "CC2"):
        H.append(dict(name=f"fast_charge_{k}", fn=fast_charge, params=dict(sym=[k], digits=True), patches=mem_patches, weight=3))
    if deep:
        H.append(dict(name="fast_charge_all", fn=fast_charge, params=dict(sym=["CC1", "CAP", "CC2"], digits=True),
                      patches=mem_patches, weight=3))
    H.append(dict(name="labelled_steps", fn=labelled, params=dict(what="steps", n=4 if deep else 3), weight=2))
    H.append(dict(name="labelled_limits", fn=labelled, params=dict(what="limits", n=2), weight=2))
    return H
