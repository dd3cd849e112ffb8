"""P18: a Biologic Modulo Bat protocol converted to a Maccor procedure does the same steps."""
from collections import OrderedDict
import xmltodict
from .common import *
from .memfs import scratch, mem_patches, txt
from .proc import value
from .p17 import close, to_frac

BOUNDS = {"all": "one sequence of every control type with 0-3 limits and 0-3 records, every value symbolic (whole part 0-999 and "
                 "three literal decimals, or any decimal number of 3 digits), every unit; programs of up to 8 sequences over 7 skeletons "
                 "(plain, one loop, two loops, forced cycle advances, empty loops), each limit going to the next sequence, the "
                 "end or any sequence; loop counts 1-999"}
OUTSIDE = ("limits of type |I|, Q and others (refused by the converter); limit values below 1e-4 of their unit; decimal hours "
           "and minutes are taken as Maccor decimals; forced cycle advances inside a loop and jumps back over one (refused)")
ASSUMPTIONS = ["limits whose action is not a goto carry the number of the next sequence, as the instrument's software writes them"]

MU = "\N{Micro Sign}"
UNITS = {"CC": {"A": 0, "mA": -3, MU + "A": -6, "nA": -9, "pA": -12}, "CV": {"V": 0, "mV": -3},
         "CR": {"MOhm": 6, "kOhm": 3, "Ohm": 0, "mOhm": -3, MU + "Ohm": -6}, "CP": {"W": 0, "mW": -3, MU + "W": -6}}
UNITS.update({"Ecell": UNITS["CV"], "Ece": UNITS["CV"], "I": UNITS["CC"], "Power": UNITS["CP"]})
MODE = {"CC": "Current", "CV": "Voltage", "CR": "Resistance", "CP": "Power", "Rest": ""}
TYPE = {"Ecell": "Voltage", "Ece": "Voltage", "I": "Current", "Power": "Power", "Time": "StepTime"}
FIELDS = ["Ns", "ctrl_type", "Apply I/C", "ctrl1_val", "ctrl1_val_unit", "ctrl1_val_vs", "charge/discharge", "ctrl_seq", "ctrl_repeat", "lim_nb"] + \
    [f"lim{k}_{f}" for k in (1, 2, 3) for f in ("type", "comp", "value", "value_unit", "action", "seq")] + ["rec_nb"] + \
    [f"rec{k}_{f}" for k in (1, 2, 3) for f in ("type", "value", "value_unit")]


def seq(n, ty="Rest", **k):
    q = OrderedDict((f, "") for f in FIELDS)
    q.update(Ns=str(n), ctrl_type=ty, ctrl_seq="0", ctrl_repeat="0", lim_nb="0", rec_nb="0")
    q["charge/discharge"] = "Discharge"
    for j in (1, 2, 3):
        q.update({f"lim{j}_type": "Time", f"lim{j}_comp": ">", f"lim{j}_value": "1.000", f"lim{j}_value_unit": "h",
                  f"lim{j}_action": "Next sequence", f"lim{j}_seq": str(n + 1), f"rec{j}_type": "Time",
                  f"rec{j}_value": "10.000", f"rec{j}_value_unit": "s"})
    q.update(k)
    return q


def mps(seqs, blank=False):
    rows = [f.ljust(20) + "".join(q[f].ljust(20) for q in seqs) + (" " * 20 if blank else "") for f in FIELDS]
    rows += [f"pad{i}".ljust(20) for i in range(62 - len(rows))]
    return ("BT-LAB SETTING FILE\r\n\r\nNumber of linked techniques : 1\r\n\r\nDevice : BCS-805\r\n\r\nTechnique : 1\r\nModulo Bat\r\n"
            + "\r\n".join(rows) + "\r\n")


def convert(c, seqs, **k):
    from beep.protocol.biologic_mb_to_maccor import BiologicMbToMaccorProcedure as B
    with scratch(c) as d:
        f = d.write("p.mps", mps(seqs, **k), "ISO-8859-1")
        o = d.path("o.000")
        B.convert(f, o)
        text = d.read(o)
    c.require("processing instruction", "<?maccor-application" in text)
    x = xmltodict.parse(text, process_namespaces=False, strip_whitespace=False)["MaccorTestProcedure"]
    steps = x["ProcSteps"]["TestStep"]
    return steps if isinstance(steps, list) else [steps]


def entries(s, a, b):
    e = (s.get(a) or {})
    e = e.get(b) if isinstance(e, dict) else None
    return [] if e is None else e if isinstance(e, list) else [e]


def strip(x):
    return (x or "").strip()


def number(c, name, focus, units):
    """(value in its unit, text, exponent, unit)"""
    from fractions import Fraction as F
    u = c.choice(name + "_unit", sorted(units)) if focus else sorted(units)[0]
    f = c.choice(name + "_form", [".000", ".125", ".007"]) if focus else ".250"
    m = c.int(name, 0, 999)
    return (m + F(f)) * F(10) ** units[u], txt(m) + f, u


def duration(c, name, focus):
    """(seconds, text, unit, expressible)"""
    from fractions import Fraction as F
    u = c.choice(name + "_unit", ["h", "mn", "s", "ms"]) if focus else "s"
    m = c.int(name, 0, 999)
    if u == "ms":
        k = c.choice(name + "_ms", [0, 3, 10 ** -3, 9.999])
        k = F(str(k)) if c.symbolic else k
        return (10 * m + k) * F(1, 1000), (txt(10 * m) if k == 0 else None), u, k
    f = c.choice(name + "_form", [".000", ".500"]) if focus else ".000"
    return (m + F(f)) * {"h": 3600, "mn": 60, "s": 1}[u], txt(m) + f, u, 0


def seconds(v):
    h, m, s = [value(p) for p in str(v).split(":")]
    return 3600 * h + 60 * m + s


def num_is(c, tag, text, v):
    try:
        g = value(text)
    except (ValueError, TypeError):
        c.require(f"{tag}: number", False)
        return
    c.require(f"{tag}: value", all_of(close(g, v, 1e-15), close(g, v, 1e-9)))


def one_seq(c):
    """control, limits and records of one sequence"""
    ty, focus = c.params["type"], c.params["focus"]
    q = seq(0, ty)
    charge = c.choice("direction", ["Charge", "Discharge"])
    q["charge/discharge"] = charge
    q["ctrl1_val_vs"] = "Ref" if ty == "CV" else "<None>"
    ctrl = None
    if ty != "Rest":
        ctrl, q["ctrl1_val"], q["ctrl1_val_unit"] = number(c, "ctrl", focus == "ctrl", UNITS[ty])
    wl, wr = [], []
    q["lim_nb"], q["rec_nb"] = str(len(c.params["lims"])), str(len(c.params["recs"]))
    for j, t in enumerate(c.params["lims"], 1):
        f = focus == f"lim{j}"
        comp = ">" if t == "Time" else (c.choice(f"comp{j}", ["<", ">"]) if f else "<>"[j % 2])
        if t == "Time":
            v, text, u, _ = duration(c, f"lim{j}", f)
            if text is None:
                return
        else:
            v, text, u = number(c, f"lim{j}", f, UNITS[t])
        act = ["Next sequence", "End", "Goto sequence"][(j + len(wl)) % 3]
        q.update({f"lim{j}_type": t, f"lim{j}_comp": comp, f"lim{j}_value": text, f"lim{j}_value_unit": u,
                  f"lim{j}_action": act, f"lim{j}_seq": "2" if act[0] == "G" else "1"})
        wl.append((TYPE[t], {"<": "<=", ">": "=" if t == "Time" else ">="}[comp], v, {"N": 2, "E": 4, "G": 3}[act[0]]))
    for j, t in enumerate(c.params["recs"], 1):
        f = focus == f"rec{j}"
        if t == "Time":
            v, text, u, _ = duration(c, f"rec{j}", f)
            if text is None:
                return
        else:
            v, text, u = number(c, f"rec{j}", f, UNITS[t])
        q.update({f"rec{j}_type": t, f"rec{j}_value": text, f"rec{j}_value_unit": u})
        wr.append((TYPE[t], v))
    steps = convert(c, [q, seq(1), seq(2)], blank=c.choice("trailing_column", [False, True]))
    c.require("one step per sequence and the end", [strip(s["StepType"]) for s in steps][1:] == ["Rest", "Rest", "End"])
    s = steps[0]
    if ty == "Rest":
        c.require("rest", strip(s["StepType"]) == "Rest" and strip(s["StepMode"]) == "")
    else:
        c.require("mode", strip(s["StepMode"]) == MODE[ty])
        c.require("direction", strip(s["StepType"]) in (("Charge", "Dischrge") if charge == "Charge" else ("Dischrge",)))
        num_is(c, "control", s["StepValue"], ctrl)
    ends, reps = entries(s, "Ends", "EndEntry"), entries(s, "Reports", "ReportEntry")
    c.require("every limit an end entry", len(ends) == len(wl))
    c.require("every record a report", len(reps) == len(wr))
    for k, (e, (t, op, v, tgt)) in enumerate(zip(ends, wl), 1):
        c.require(f"end {k}", (strip(e["EndType"]), strip(e["Oper"]), e["Step"]) == (t, op, "%03d" % tgt))
        if t == "StepTime":
            c.require(f"end {k}: time", close(seconds(e["Value"]), v, 1e-6))
        else:
            num_is(c, f"end {k}", e["Value"], v)
    for k, (e, (t, v)) in enumerate(zip(reps, wr), 1):
        c.require(f"report {k}", strip(e["ReportType"]) == t)
        if t == "StepTime":
            c.require(f"report {k}: time", close(seconds(e["Value"]), v, 1e-6))
        else:
            num_is(c, f"report {k}", e["Value"], v)
    c.cover("reached")


def milliseconds(c):
    """times below a hundredth of a second are refused, not rounded away"""
    ms = c.real("ms", 0, 5000)
    if not c.symbolic:
        ms = round(ms, 3)
    where = c.choice("where", ["lim1", "rec1"])
    q = seq(0, **{f"{where}_value": txt(ms), f"{where}_value_unit": "ms", "lim_nb": "1", "rec_nb": "1"})
    r, steps = raises((Exception,), lambda: convert(c, [q, seq(1)]))
    if r:
        k = ms % 10
        c.require("only what Maccor cannot express is refused", all_of(k >= 0.09, k <= 9.91))
        c.cover("refused")
        return
    e = entries(steps[0], *(("Ends", "EndEntry") if where == "lim1" else ("Reports", "ReportEntry")))
    c.require("one entry", len(e) == 1)
    c.require("time", close(seconds(e[0]["Value"]), ms * to_frac(0.001), 1.1e-4))
    c.cover("kept")


# ------------------------------------------------------------------ programs

#  M measurement, B empty loop, A loop back to the empty loop before it, Lk loop to sequence k
SKEL = {"plain": "M M M", "loop": "M M M L1 M", "first": "M M L0 M", "two": "M L0 M M L2 M", "adv": "M B A M M L3 M",
        "empty": "M M B M L0 M", "gap": "M M L0 M M M L4 M"}


def layout(code):
    """step numbers: of each sequence's own step, of the Do of a loop that starts there, of the end"""
    starts = {int(k[1]) for k in code if k[0] == "L"}
    own, do, n, kinds = {}, {}, 1, []
    for i, k in enumerate(code):
        if k == "B":
            continue
        if i in starts:
            do[i] = n
            kinds.append("Do 1")
            n += 1
        own[i] = n
        new = {"M": ["Rest"], "A": ["AdvCycle"], "L": ["AdvCycle", "Loop 1"]}[k[0]]
        kinds += new
        n += len(new)
    return own, do, n, kinds + ["End"]


def loops(code):
    return [(int(k[1]), i) for i, k in enumerate(code) if k[0] == "L"]


def program(c):
    """jumps: next, end, or a sequence; into a loop only through its start"""
    code = SKEL[c.params["skel"]].split()
    src = c.choice("from", [i for i, k in enumerate(code) if k == "M"])
    act = c.choice("action", ["Next sequence", "End", "Goto sequence"])
    tgt = c.choice("to", list(range(len(code)))) if act[0] == "G" else src + 1
    counts, seqs = {}, []
    for i, k in enumerate(code):
        if k == "M":
            q = seq(i, lim_nb="1", lim1_value=f"{i + 1}.000", rec_nb="1")
            if i == src:
                q.update(lim1_action=act, lim1_seq=str(tgt))
        elif k == "B":
            q = seq(i, "Loop")
        elif k == "A":
            q = seq(i, "Loop", ctrl_seq=str(i - 1), ctrl_repeat="1")
        else:
            counts[i] = c.int(f"count{i}", 1, 999)
            q = seq(i, "Loop", ctrl_seq=k[1], ctrl_repeat=txt(counts[i]))
        seqs.append(q)
    r, steps = raises((Exception,), lambda: convert(c, seqs))
    inside = lambda x: [(a, b) for a, b in loops(code) if a <= x <= b]
    done = max([b for _, b in loops(code) if b < src] + [-1])
    bad = act[0] == "G" and (tgt < done or (inside(tgt) and not inside(src) and tgt != inside(tgt)[0][0])
                             or (inside(tgt) and inside(src) and inside(tgt) != inside(src) and tgt != inside(tgt)[0][0]))
    if r:
        soft = act[0] == "G" and (code[tgt] == "B" or code[tgt] == "A" or (inside(tgt) and inside(tgt) != inside(src))
                                  or tgt < src and any(k in "BA" for k in code[tgt:src]) or tgt == done)
        c.require("a legal program is converted", bool(bad or soft))
        c.cover("refused")
        return
    c.require("a jump into a loop or back before a finished one is refused", not bad)
    own, do, end, kinds = layout(code)
    c.require("steps", [strip(s["StepType"]) for s in steps] == kinds)
    if [strip(s["StepType"]) for s in steps] != kinds:
        return
    for i, k in enumerate(code):
        if k == "M":
            e = entries(steps[own[i] - 1], "Ends", "EndEntry")
            c.require(f"sequence {i}", len(e) == 1 and close(seconds(e[0]["Value"]), 3600 * (i + 1), 1e-6))
            if i != src or act[0] == "N":
                want = own[i] + 1
            elif act == "End":
                want = end
            else:
                want = do[tgt] if tgt in do and not (inside(src) and inside(src) == inside(tgt)) else own.get(tgt)
            c.require(f"target of sequence {i}", e[0]["Step"] == "%03d" % want)
        elif k[0] == "L":
            e = entries(steps[own[i]], "Ends", "EndEntry")
            c.require("loop entry", len(e) == 1 and strip(e[0]["EndType"]) == "Loop Cnt" and strip(e[0]["Oper"]) == "=")
            loop_entry(c, e[0], counts[i], do[int(k[1])], own[i] + 2)
    c.cover("converted")


def loop_entry(c, e, n, do, after, strict=False):
    """known finding: the repeat count under StepValue and the Do step as target; the right form is also accepted"""
    if strict or strip(e.get("Value")):
        c.require("loop count", close(value(strip(e.get("Value")) or "nan"), n + 1, 1e-9))
        c.require("loop continues after it", e["Step"] == "%03d" % after)
    else:
        c.require("loop count", close(value(strip(e.get("StepValue")) or "nan"), n, 1e-9))
        c.require("loop target", e["Step"] == "%03d" % do)


def refused(c):
    """what Maccor cannot express is refused"""
    kind = c.choice("kind", ["overlap", "nested", "crossing", "to empty", "vs", "type", "comp", "lim type", "rec type", "unit", "goto none",
                             "direction", "action", "lim_nb"])
    v = c.int("v", 1, 99)
    n = txt(v)
    L = lambda i, to: seq(i, "Loop", ctrl_seq=str(to), ctrl_repeat=n)
    M = lambda i, **k: seq(i, **dict(dict(lim_nb="1", rec_nb="1"), **k))
    cc = dict(ctrl1_val=n, ctrl1_val_unit="A", ctrl1_val_vs="<None>")
    P = {"overlap": [M(0), M(1), L(2, 0), M(3), L(4, 1)], "nested": [M(0), M(1), L(2, 1), M(3), L(4, 0)],
         "crossing": [M(0), M(1), M(2), L(3, 0), M(4), L(5, 2), M(6)],
         "to empty": [M(0), seq(1, "Loop"), M(2), L(3, 1)], "vs": [M(0, ctrl_type="CV", ctrl1_val=n, ctrl1_val_unit="V", ctrl1_val_vs="Eoc")],
         "type": [M(0, ctrl_type="GEIS", **cc)], "comp": [M(0, lim1_comp="=")], "lim type": [M(0, lim1_type="Q", lim1_value=n)],
         "rec type": [M(0, rec1_type="Q", rec1_value=n)], "unit": [M(0, lim1_type="Ecell", lim1_value=n, lim1_value_unit="mA")],
         "goto none": [M(0, lim1_action="Goto sequence", lim1_seq="7")], "direction": [M(0, **{"charge/discharge": ""})],
         "action": [M(0, lim1_action="Pause")], "lim_nb": [M(0, lim_nb="4")]}[kind]
    r, _ = raises((Exception,), lambda: convert(c, P))
    c.require("refused", r)
    c.cover("reached")


def known_direction(c):
    q = seq(0, "CC", ctrl1_val="1.000", ctrl1_val_unit="A", lim_nb="1", rec_nb="1", **{"charge/discharge": "Charge"})
    s = convert(c, [q, seq(1)])
    c.require("a charge sequence becomes a charge step", strip(s[0]["StepType"]) == "Charge")


def known_loop(c):
    s = convert(c, [seq(0, lim_nb="1"), seq(1, "Loop", ctrl_seq="0", ctrl_repeat="5"), seq(2, lim_nb="1")])
    loop_entry(c, entries(s[3], "Ends", "EndEntry")[0], 5, 1, 5, strict=True)


def known_harnesses():
    return [dict(name="known_direction", fn=known_direction), dict(name="known_loop", fn=known_loop)]


def harnesses(tier):
    deep = tier == "thorough"
    H = []
    L = dict(latin=True)
    COMBO = [([], ["Time", "Ecell", "I"]), (["Ecell", "Time", "I"], []), (["Time"], ["Power"]), (["I", "Ece"], ["Ece", "I"])]
    for ty in ("CC", "CV", "CR", "CP", "Rest"):
        for n, (lims, recs) in enumerate(COMBO):
            foci = (["ctrl"] if ty != "Rest" else []) + [f"lim{j + 1}" for j in range(len(lims))] + [f"rec{j + 1}" for j in range(len(recs))]
            for f in foci:
                if deep or ty == "CC" or f == "ctrl" or ty == "Rest" and n in (1, 3):
                    H.append(dict(name=f"seq_{ty}_{n}_{f}", fn=one_seq, params=dict(L, type=ty, lims=lims, recs=recs, focus=f),
                                  patches=mem_patches, weight=1))
    H.append(dict(name="milliseconds", fn=milliseconds, params=dict(L), patches=mem_patches, weight=2))
    for s in SKEL:
        H.append(dict(name=f"program_{s}", fn=program, params=dict(L, skel=s), patches=mem_patches, weight=3))
    H.append(dict(name="refused", fn=refused, params=dict(L), patches=mem_patches, weight=1))
    return H
