"""P16: a Maccor procedure converted to an Arbin schedule does the same steps."""
import os
import re
from collections import OrderedDict
from copy import deepcopy
from .common import *
from .memfs import scratch, mem_patches, txt, STORE, _key
from .proc import leaves, value

BOUNDS = {"quick": "one converted step of every supported kind with up to 2 end conditions and 2 reports, all values and times "
                   "symbolic (hours 0-100), any target step; programs of up to 7 steps with two nested or consecutive loops, "
                   "loop counts 1-3; whole-file conversion of 6-step procedures onto the shipped schedule",
          "thorough": "as quick, with up to 9 steps and loop counts 1-4"}
OUTSIDE = "loop numbers above 2, function and waveform steps (refused by the converter); current ends of the form >="
ASSUMPTIONS = ["the Arbin counter words are interpreted as the converter documents them: ExtCtrlValue1 bit n increments "
               "TC_Counter n, CtrlValue bit 15+n resets it, limits are tested in order"]


def sched_patches():
    from beep.protocol.arbin import Schedule
    to, fr = Schedule.to_file, Schedule.from_file.__func__
    utf = dict(encoding="utf-8")
    return mem_patches() + [
        (Schedule, "to_file", lambda self, f, encoding="latin-1", linesep="\r\n": to(self, f, "utf-8", linesep)),
        (Schedule, "from_file", classmethod(lambda cls, f, encoding="latin-1":
                                            fr(cls, f, "utf-8" if _key(f) in STORE else encoding)))]


def conv(steps):
    from beep.protocol.maccor_to_arbin import ProcedureToSchedule
    return ProcedureToSchedule(steps)


def tv(c, name, lo, hi):
    """a number of the procedure, as text"""
    v = c.real(name, lo, hi)
    if not symbolic(v):
        v = round(v, 4)
    return v, txt(v)


def step(ty, mode=None, val=None, limits=None, ends=None, reports=None, note=None):
    return OrderedDict([("StepType", ty), ("StepMode", mode), ("StepValue", val), ("Limits", limits), ("Ends", ends),
                        ("Reports", reports), ("Range", "A"), ("StepNote", note)])


def time_text(c, name):
    """(seconds, text) in one of the forms Maccor writes"""
    form = c.choice(name + "_form", ["full", "seconds", "fraction"])
    if form == "full":
        h, m, s = c.int(name + "_h", 0, 100), c.int(name + "_m", 0, 59), c.int(name + "_s", 0, 59)
        if symbolic(h):
            return 3600 * h + 60 * m + s, f"{txt(h)}:{txt(m)}:{txt(s)}"
        return 3600 * h + 60 * m + s, f"{h:02d}:{m:02d}:{s:02d}"
    if form == "seconds":
        s = c.int(name + "_s", 0, 59)
        return s, "::" + txt(s)
    return 0.25, "::.25"


ENDS = ["Voltage", "Current", "StepTime"]


def make_end(c, name, kind, target):
    if kind == "StepTime":
        v, t = time_text(c, name)
        return OrderedDict([("EndType", "StepTime"), ("SpecialType", " "), ("Oper", "="), ("Step", target), ("Value", t)]), v
    v, t = tv(c, name, 0, 10)
    op = c.choice(name + "_op", ["<=", ">="]) if kind == "Voltage" else "<="
    return OrderedDict([("EndType", kind), ("SpecialType", " "), ("Oper", op + " "), ("Step", target), ("Value", t)]), v


def check_limit(c, tag, lim, stop, log, goto, left, sign, right):
    c.require(f"{tag}: fields", sorted(lim) == sorted(
        ["m_bStepLimit", "m_bLogDataLimit", "m_szGotoStep"] + [f"Equation{i}_sz{x}" for i in range(3) for x in ("Left", "CompareSign", "Right")]))
    c.require(f"{tag}: stop/log flags", (lim.get("m_bStepLimit"), lim.get("m_bLogDataLimit")) == (stop, log))
    c.require(f"{tag}: goto", lim.get("m_szGotoStep") == goto)
    c.require(f"{tag}: condition", (lim.get("Equation0_szLeft"), lim.get("Equation0_szCompareSign")) == (left, sign))
    c.require(f"{tag}: value is text", isinstance(lim.get("Equation0_szRight"), str))
    c.require(f"{tag}: value", close(value(lim.get("Equation0_szRight") or "nan"), right, 1e-6))
    c.require(f"{tag}: no other condition", not any(lim.get(f"Equation{i}_sz{x}") for i in (1, 2)
                                                    for x in ("Left", "CompareSign", "Right")))


KINDS = {"cc": ("Current", False, False), "cccv": ("Current", True, False), "crate": ("Current", False, True),
         "crate_cv": ("Current", True, True), "cv": ("Voltage", False, False), "cv_lim": ("Voltage", True, False)}


def one_step(c):
    """one control step: control type and signed values, every end and every report, in order"""
    kind = c.params["kind"]
    ends_k = c.params["ends"]
    n, i = 5, c.choice("index", [0, 2])
    notes = ["a", None, "b-c", None, "end"]
    names = [f"{j + 1}-{notes[j]}" for j in range(n)]
    ty = c.choice("type", ["Charge", "Dischrge"]) if kind != "rest" else "Rest"
    sgn = 1 if ty == "Charge" else -1
    want = dict(m_szVoltageRange="High", m_szCurrentRange="Range3", m_szLabel=names[i])
    numw = {}
    if kind == "rest":
        s = step("Rest")
        want["m_szStepCtrlType"] = "Rest"
    else:
        mode, lim, crate = KINDS[kind]
        v, vt = tv(c, "value", 0, 10)
        lv, lt = tv(c, "limit", 0, 10)
        s = step(ty, mode, vt + ("C" if crate else ""), {"Voltage" if mode == "Current" else "Current": lt} if lim else None)
        if lim:
            cur, vol = (v, lv) if mode == "Current" else (lv, v)
            want.update(m_szStepCtrlType="CCCV", m_szExtCtrlValue2="0")
            numw.update(m_szCtrlValue=sgn * cur, m_szExtCtrlValue1=vol)
        else:
            want["m_szStepCtrlType"] = "C-Rate" if crate else ("Current(A)" if mode == "Current" else "Voltage(V)")
            numw["m_szCtrlValue"] = sgn * v if mode == "Current" else v
    s["StepNote"] = notes[i]
    limits = []
    ends, single = [], c.params.get("single")
    for j, k in enumerate(ends_k):
        tgt = c.choice(f"target{j}", [i + 1, 0, n - 1]) if j == 0 else n - 1
        e, ev = make_end(c, f"end{j}", k, str(tgt + 1).zfill(3))
        goto = "Next Step" if tgt == i + 1 else names[tgt]
        if k == "StepTime":
            limits.append(("1", "1", goto, "PV_CHAN_Step_Time", ">", ev))
        elif k == "Voltage":
            limits.append(("1", "1", goto, "PV_CHAN_Voltage", e["Oper"].strip(), ev))
        else:
            left = "PV_CHAN_CV_Stage_Current" if want["m_szStepCtrlType"] == "CCCV" else "PV_CHAN_Current"
            limits.append(("1", "1", goto, left, "<=" if sgn > 0 else ">=", sgn * ev))
        ends.append(e)
    if ends:
        s["Ends"] = {"EndEntry": (dict(ends[0]) if c.params.get("plain") else ends[0]) if single else ends}
    else:
        limits.append(("1", "0", "Next Step", "PV_CHAN_Step_Time", ">", 0.0))
    reps = []
    for j, k in enumerate(c.params["reports"]):
        if k == "StepTime":
            rv, rt = time_text(c, f"rep{j}")
        else:
            rv, rt = tv(c, f"rep{j}", 0, 10)
        reps.append(OrderedDict([("ReportType", k), ("Value", rt)]))
        limits.append(("0", "1", "Next Step", {"Voltage": "DV_Voltage", "Current": "DV_Current", "StepTime": "DV_Time"}[k], ">", rv))
    if reps:
        s["Reports"] = {"ReportEntry": reps[0] if len(reps) == 1 and c.params.get("single_report", True) else reps}
    steps = [step("Rest", note=notes[j]) for j in range(n)]
    steps[i] = s
    before = deepcopy(steps)
    cv = conv(steps)
    sn, fl = cv.create_metadata()
    c.require("labels", sn == names)
    a = cv.compile_to_arbin(steps[i], i, sn, fl, current_range="Range3")
    for k, v in want.items():
        c.require(k, a.get(k) == v)
    for k, v in numw.items():
        c.require(k, isinstance(a.get(k), str) and close(value(a[k] or "nan"), v, 1e-6))
    for k in ("m_szCtrlValue", "m_szExtCtrlValue1", "m_szExtCtrlValue2"):
        if k not in want and k not in numw:
            c.require(k + " unset", a.get(k) == "")
    c.require("number of limits", a.get("m_uLimitNum") == str(len(limits)))
    c.require("limits numbered in order", [k for k in a if k.startswith("Limit")] == [f"Limit{j}" for j in range(len(limits))])
    for j, L in enumerate(limits):
        if f"Limit{j}" in a:
            check_limit(c, f"Limit{j}", a[f"Limit{j}"], *L)
    c.require("procedure unchanged", steps == before)
    c.cover("reached")


def refused(c):
    """steps the schedule cannot express are refused, not dropped"""
    kind = c.choice("kind", ["func", "wave", "cv_crate", "loop3", "current_end", "rest_limits", "end_type"])
    v, vt = tv(c, "value", 0, 10)
    s = {"func": lambda: step("Chg Func", "Current", vt), "wave": lambda: step("FastWave", None, "w"),
         "cv_crate": lambda: step("Charge", "Voltage", vt, {"Current": "1C"}), "loop3": lambda: step("AdvCycle3", None),
         "current_end": lambda: step("Charge", "Current", vt, None, {"EndEntry": [
             OrderedDict([("EndType", "Current"), ("Oper", "<= "), ("Step", "002"), ("Value", vt)])]}),
         "rest_limits": lambda: step("Rest", None, None, {"Voltage": vt}),
         "end_type": lambda: step("Charge", "Current", vt, None, {"EndEntry": [
             OrderedDict([("EndType", "Power"), ("Oper", "<= "), ("Step", "002"), ("Value", vt)])]})}[kind]()
    cv = conv([s, step("End")])
    sn, fl = cv.create_metadata()
    r, _ = raises((ValueError,), lambda: cv.compile_to_arbin(s, 0, sn, fl))
    c.require("refused", r)
    c.cover("reached")


# ------------------------------------------------------------------ control flow

PROGS = {  # R rest, D/L do, loop; A advance; E end
    "one": ["D1", "R", "A", "L1", "E"],
    "late": ["R", "R", "R", "D1", "R", "L1", "R", "E"],
    "second": ["R", "D1", "R", "L1", "E"],
    "empty": ["D1", "L1", "E"],
    "nested": ["D2", "D1", "R", "L1", "A", "L2", "E"],
    "nested_late": ["R", "D2", "R", "D1", "R", "L1", "L2", "E"],
    "twice": ["D1", "R", "L1", "R", "D1", "R", "L1", "E"],
    "swap": ["D1", "R", "D2", "R", "L2", "L1", "E"],
}


def program(c, code):
    steps, counts = [], {}
    for i, k in enumerate(code):
        if k == "R":
            steps.append(step("Rest", ends={"EndEntry": [OrderedDict([("EndType", "StepTime"), ("Oper", "="), ("Step", str(i + 2).zfill(3)),
                                                                       ("Value", "00:01:00")])]}))
        elif k == "A":
            steps.append(step("AdvCycle"))
        elif k == "E":
            steps.append(step("End"))
        elif k[0] == "D":
            steps.append(step("Do " + k[1]))
        else:
            n = c.int(f"count{i}", 1, c.params["count"])
            counts[i] = n
            e = OrderedDict([("EndType", "Loop Cnt"), ("Oper", "="), ("Step", str(i + 2).zfill(3)), ("Value", txt(n))])
            steps.append(step("Loop " + k[1], ends={"EndEntry": dict(e) if c.params.get("plain") else e}))
    return steps, counts


CAP = 120


def run_maccor(code, counts):
    pc, ctr, seen = 0, {}, []
    while len(seen) < CAP:
        seen.append(pc)
        k = code[pc]
        if k == "E":
            break
        if k[0] == "D":
            ctr[k[1]] = 0
            pc += 1
        elif k[0] == "L":
            ctr[k[1]] += 1
            if ctr[k[1]] < counts[pc]:
                j = pc - 1
                while code[j] != "D" + k[1]:
                    j -= 1
                pc = j + 1
            else:
                pc += 1
        else:
            pc += 1
    return seen


def run_arbin(sch, names, n):
    """execute the converted steps: counters, then the limits in order"""
    pc, ctr, seen, cycle = 0, {i: 0 for i in range(1, 5)}, [], 1
    while len(seen) < CAP:
        seen.append(pc)
        if pc == n - 1:
            break
        s = sch[pc]
        if s["m_szStepCtrlType"] == "Set Variable(s)":
            r, inc = int(s["m_szCtrlValue"]), int(s["m_szExtCtrlValue1"])
            for i in range(1, 5):
                if r & (1 << (15 + i)):
                    ctr[i] = 0
                if inc & (1 << i):
                    ctr[i] += 1
            if inc & 1:
                cycle += 1
        nxt = None
        for j in range(int(s["m_uLimitNum"])):
            L = s[f"Limit{j}"]
            if L["m_bStepLimit"] != "1":
                continue
            m = re.match(r"TC_Counter(\d+)", L["Equation0_szLeft"])
            hit = True
            if m:
                a, b = ctr[int(m.group(1))], value(L["Equation0_szRight"])
                hit = {"<": a < b, "=": b == a, ">=": b <= a}[L["Equation0_szCompareSign"]]
            if hit:
                nxt = pc + 1 if L["m_szGotoStep"] == "Next Step" else names.index(L["m_szGotoStep"])
                break
        if nxt is None:
            seen.append("stuck")
            break
        pc = nxt
    return seen, cycle


def flow(c):
    """the schedule visits the steps in the order the procedure does, for every loop count"""
    code = PROGS[c.params["prog"]]
    steps, counts = program(c, code)
    cv = conv(steps)
    sn, fl = cv.create_metadata()
    sch = [cv.compile_to_arbin(s, i, sn, fl) for i, s in enumerate(steps)]
    want = run_maccor(code, counts)
    got, cyc = run_arbin(sch, sn, len(code))
    c.require("same order of steps", got == want)
    c.require("same number of cycles", cyc == 1 + sum(1 for i in want if code[i] == "A"))
    again = [cv.compile_to_arbin(s, i, sn, fl) for i, s in enumerate(steps)]
    c.require("converting twice gives the same", again == sch)
    c.cover("repeats", len(want) > len(code))


def whole(c):
    """the converted file: steps in place of the shell's, everything else the shell's, safety limits as given"""
    from beep.protocol.arbin import Schedule
    from beep.protocol import SCHEDULE_TEMPLATE_DIR
    shell = os.path.join(SCHEDULE_TEMPLATE_DIR, "20170630-3_6C_9per_5C.sdu")
    v, vt = tv(c, "value", 0, 10)
    lv, lt = tv(c, "limit", 0, 10)
    e, ev = make_end(c, "end", "Voltage", "004")
    t, ts = c.int("secs", 0, 59), None
    steps, _ = program(c, PROGS["second"])
    steps[2] = step("Charge", "Current", vt, {"Voltage": lt}, {"EndEntry": [e]}, {"ReportEntry": {"ReportType": "StepTime", "Value": "::" + txt(t)}}, "x")
    rng = [c.real(k, lo, hi) for k, lo, hi in (("v0", 0, 3), ("v1", 3, 6), ("t0", -40, 20), ("t1", 20, 90), ("i0", -30, 0), ("i1", 0, 30))]
    temp = c.choice("temperature", ["given", "default", "high", "low", "none"])    # none: no limit given at all
    with scratch(c) as d:
        out = d.path("o.sdu")
        kw = {} if temp == "none" else dict(global_v_range=rng[:2], global_current_range=rng[4:])
        if temp in ("high", "low"):               # only one of the two limits
            rng[2:4] = [-100, rng[3]] if temp == "high" else [rng[2], 100]
        if temp == "none":
            rng = [2.5, 4.5, -100, 100, -30, 30]
        elif temp != "default":
            kw["global_temp_range"] = rng[2:4]
        conv(steps).create_sdu(shell, out, current_range="Range2", **kw)
        q = Schedule.from_file(out)
    ref = Schedule.from_file(shell)
    cv = conv(steps)
    sn, fl = cv.create_metadata()
    isstep = lambda k: re.match("Step[0-9]+", k)
    S, R = q["Schedule"], ref["Schedule"]
    c.require("steps in order", [k for k in S if isstep(k)] == [f"Step{i}" for i in range(len(steps))])
    for i, s in enumerate(steps):
        want = dict(leaves(cv.compile_to_arbin(s, i, sn, fl, current_range="Range2")))
        got = dict(leaves(S.get(f"Step{i}", {})))
        c.require(f"step {i}", sorted(map(str, want)) == sorted(map(str, got)))
        c.require(f"step {i} values", all_of([same_text(got.get(k), w) for k, w in want.items()]))
    own = {"m_uStepNum", "m_VoltageSafetyScope", "m_AuxTempSafetyScope", "m_CurrentSafetyScope", "m_AuxSafetyEnabled"}
    for k, w in R.items():
        if not isstep(k) and k not in own:
            c.require(f"{k} is the shell's", S.get(k) == w)
    c.require("nothing else", all(k in R or isstep(k) for k in S))
    for k in ref:
        if k != "Schedule":
            c.require(f"{k} is the shell's", q.get(k) == ref[k])
    c.require("number of steps", S.get("m_uStepNum") == str(len(steps)))
    for k, (a, b) in {"m_VoltageSafetyScope": rng[:2], "m_CurrentSafetyScope": rng[4:],
                      "m_AuxTempSafetyScope": rng[2:4] if temp != "default" else [-100, 100]}.items():
        x = S.get(k, "").split("^")
        c.require(k, len(x) == 2 and all_of(close(value(x[0]), a, 1e-6), close(value(x[1]), b, 1e-6)))
    if temp in ("default", "none"):
        c.require("temperature check as in the shell", S.get("m_AuxSafetyEnabled") == R.get("m_AuxSafetyEnabled"))
    else:
        c.require("temperature check on", "1^1" in [x.strip() for x in S.get("m_AuxSafetyEnabled", "").split(";")])
    c.cover("reached")


def same_text(a, b):
    if a == b:
        return True
    return False


def harnesses(tier):
    deep = tier == "thorough"
    H = []
    for kind in ["rest"] + list(KINDS):
        cur = kind in ("cccv", "crate_cv", "cv", "cv_lim")
        shapes = [([], ["StepTime"]), (["StepTime"], []), (["Voltage", "Current" if cur else "StepTime"], ["StepTime", "Voltage"]),
                  (["Current" if cur else "Voltage", "StepTime"], ["Current"])]
        for j, (e, r) in enumerate(shapes):
            H.append(dict(name=f"step_{kind}_{j}", fn=one_step, params=dict(kind=kind, ends=e, reports=r), weight=2))
        H.append(dict(name=f"step_{kind}_single", fn=one_step, weight=2,
                      params=dict(kind=kind, ends=["StepTime"], reports=["Voltage", "StepTime"], single=True, plain=True)))
        H.append(dict(name=f"step_{kind}_single1", fn=one_step, weight=2,
                      params=dict(kind=kind, ends=["Voltage"], reports=["StepTime"], single=True, plain=kind in ("cc", "rest"))))
    H.append(dict(name="refused", fn=refused, weight=1))
    for p in PROGS:
        H.append(dict(name=f"flow_{p}", fn=flow, params=dict(prog=p, count=4 if deep else 3, plain=p != "twice"), weight=2))
    H.append(dict(name="whole", fn=whole, params=dict(count=50, plain=True), patches=sched_patches, weight=3))
    return H
