"""P17: a Maccor procedure converted to a Biologic protocol does the same steps, and its cycle rules count the same cycles."""
import json
import os
from collections import OrderedDict
from .common import *
from .memfs import scratch, mem_patches, txt, cell
from .proc import value

BOUNDS = {"quick": "one converted step of each kind with up to 3 end conditions and 3 reports, every value symbolic with 0-6 "
                   "decimals or an exponent, every time form, every admissible target; global limits symbolic; programs over "
                   "9 skeletons of up to 3 measurement steps per loop, nested and consecutive loops, an advance-cycle step "
                   "possible at up to 6 places each, loop counts 1-2 (one skeleton 1-3), 1-2 data rows per visit",
          "thorough": "as quick, advance-cycle possible at every place, loop counts 1-3"}
OUTSIDE = ("cycle advances on goto transitions (documented as not handled); the meaning of the loop technique's count on the "
           "device (it carries the Maccor count); the current range fields; end conditions during the first part of a split "
           "step with a limit; voltage-mode steps with a current limit; techniques without a measurement")
ASSUMPTIONS = ["a Loop sequence with ctrl_repeat n goes back n times; a sequence is recorded at least once per visit"]

SCALE = {"V": 1, "mV": 1e-3, "A": 1, "mA": 1e-3, "\N{Micro Sign}A": 1e-6, "nA": 1e-9, "pA": 1e-12, "h": 3600, "mn": 60, "s": 1, "ms": 1e-3}


def xml_of(steps):
    def one(k, v):
        if v is None:
            return f"<{k}/>"
        if isinstance(v, dict):
            return f"<{k}>" + "".join(one(a, b) for a, b in v.items()) + f"</{k}>"
        if isinstance(v, list):
            return "".join(one(k, x) for x in v)
        return f"<{k}>{v.replace('<', '&lt;').replace('>', '&gt;')}</{k}>"
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<MaccorTestProcedure><header><x>1</x></header><ProcSteps>'
            + "".join(one("TestStep", s) for s in steps) + "</ProcSteps></MaccorTestProcedure>\n")


def step(ty, mode=None, val=None, limits=None, ends=None, reports=None):
    return OrderedDict([("StepType", ty), ("StepMode", mode), ("StepValue", val), ("Limits", limits),
                        ("Ends", {"EndEntry": ends} if ends is not None else None),
                        ("Reports", {"ReportEntry": reports} if reports is not None else None), ("Range", "A"), ("StepNote", None)])


def end(ty, oper, target, val):
    return OrderedDict([("EndType", ty), ("SpecialType", " "), ("Oper", oper + " "), ("Step", str(target).zfill(3)), ("Value", val)])


def rep(ty, val):
    return OrderedDict([("ReportType", ty), ("Value", val)])


def convert(c, d, steps, prep=None):
    from beep.protocol.maccor_to_biologic_mb import MaccorToBiologicMb
    f = d.write("p.000", xml_of(steps))
    m = MaccorToBiologicMb()
    if prep:
        prep(m)
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        out, rules = m.convert(f, d.path("").rstrip("/"), "o_")
    return d.read(out, "ISO-8859-1"), rules


def parse(text):
    """techniques of a settings text: (number, 'Modulo Bat' | 'Loop', columns)"""
    out, cur = [], None
    for line in text.split("\r\n"):
        if line.startswith("Technique : "):
            cur = [int(line.split(":")[1]), None, OrderedDict()]
            out.append(cur)
        elif cur is not None and cur[1] is None:
            cur[1] = line
        elif cur is not None and line:
            cells = [line[i:i + 20].strip() for i in range(0, len(line), 20)]
            cur[2][cells[0]] = cells[1:]
    techs = []
    for n, ty, rows in out:
        k = max((len(v) for v in rows.values()), default=0)
        cols = [{f: (v[i] if i < len(v) else "") for f, v in rows.items()} for i in range(k)]
        techs.append((n, ty, cols))
    return techs


# ------------------------------------------------------------------ values

FORMS_V = ["T", "T.5", "T.062", "T.0625", "T.000125", "Le-4", "R"]
FORMS_A = ["T", "T.5", "T.0625", "T.000125", "Te-4", "Te-8", "Le-4", "LE-5", "T.5E-2", "Te1", "R"]


def number(c, name, forms):
    """(value, text, tolerance): whole part (or mantissa) symbolic, decimals literal; or any real"""
    f = c.choice(name + "_form", forms)
    if f == "R":
        v = c.real(name + "_r", 0.001, 10)
        if not symbolic(v):
            v = round(v, 4)
        return v, txt(v), ite(v < 1, 5.1e-7, 5.1e-4)
    if f[0] == "L":                                  # many digits before a negative exponent
        from fractions import Fraction as F
        m = c.int(name, 1, 99999)
        return m * F(10) ** int(f[2:]), txt(m) + f[1:], 2e-10
    m = c.int(name, 1 if "e" in f or f == "T" or len(forms) == 1 else 0, 9)
    from fractions import Fraction as F
    frac, ex = f[1:], 0
    for e in ("e", "E"):
        if e in frac:
            frac, ex = frac.split(e)
    v = m
    if frac:
        v = v + F(int(frac[1:]), 10 ** (len(frac) - 1))
    v = v * F(10) ** int(ex)
    return v, f.replace("T", txt(m)), 2e-10 if int(ex) >= -4 else 1e-13


def time_value(c, name, deep=True):
    f = c.choice(name + "_form", ["h:m:s", "h::", ":m:", "::s", "::.01", "frac", "h.5::"] if deep else ["::s"])
    if not deep:
        s = c.int(name + "_s", 1, 59)
        return s, f"::{txt(s)}"
    h, m, s = c.int(name + "_h", 0, 100), c.int(name + "_m", 0, 59), c.int(name + "_s", 0, 59)
    pad = (lambda x: txt(x)) if symbolic(h) else (lambda x: "%02d" % x)
    if f == "h:m:s":
        return 3600 * h + 60 * m + s, f"{pad(h)}:{pad(m)}:{pad(s)}"
    if f == "h::":
        return 3600 * h, f"{txt(h)}::"
    if f == ":m:":
        return 60 * m, f":{txt(m)}:"
    if f == "::s":
        return s, f"::{txt(s)}"
    if f == "::.01":
        return 0.01, "::.01"
    if f == "frac":
        return 60 * m + s + 0.13, f":{txt(m)}:{txt(s)}.13"
    return 3600 * h + 1800, f"{txt(h)}.5::"


def quantity(c, tag, col, field, v, tol, kind):
    u = col.get(field + "_unit", "")
    ok = u in SCALE and u.endswith({"V": "V", "A": "A"}.get(kind, ""))
    if kind == "t":
        ok = u in ("h", "mn", "s", "ms")
    c.require(f"{tag}: unit", ok)
    if ok:
        c.require(f"{tag}: value", close(value(col.get(field) or "nan") * to_frac(SCALE[u]), v, tol))


def to_frac(x):
    from fractions import Fraction as F
    return F(str(x)) if core.CTX.symbolic else x


def close(a, b, tol):
    if symbolic(tol):
        d = a - b
        return all_of(d <= tol, d >= -tol)
    return core.close(a if symbolic(a) else float(a), b if symbolic(b) else float(b), float(tol))


# ------------------------------------------------------------------ one step

def one_step(c):
    """control, limits and records of one step: units, targets, order, counts"""
    kind = c.params["kind"]
    ek, rk = c.params["ends"], c.params["reports"]
    n = 5
    i = 2                                         # 1-based step 3 of 5, the last one is End
    ty = c.choice("type", ["Charge", "Dischrge"]) if kind != "rest" else "Rest"
    ends, reps, wl, wr = [], [], [], []
    focus = c.params["focus"]                     # the value that takes every textual form
    for j, k in enumerate(ek):
        tgt = c.choice(f"target{j}", [4, 1, 2, 3, 5]) if j == 0 and focus == "target" else (4 if j == 1 else 5)
        if k == "StepTime":
            v, t = time_value(c, f"end{j}", focus == f"end{j}")
            ends.append(end(k, "=", tgt, t))
            wl.append(("Time", ">", v, 1e-6, "t", tgt))
        else:
            op = c.choice(f"op{j}", ["<=", ">="]) if focus in (f"end{j}", "target") else ["<=", ">="][(j + len(ek)) % 2]
            v, t, tol = number(c, f"end{j}", (FORMS_V if k == "Voltage" else FORMS_A) if focus == f"end{j}" else ["T.5"])
            ends.append(end(k, op, tgt, t))
            wl.append(("Ecell" if k == "Voltage" else "|I|", op[0], v, tol, k[0] if k == "Voltage" else "A", tgt))
    for j, k in enumerate(rk):
        if k == "StepTime":
            v, t = time_value(c, f"rep{j}", focus == f"rep{j}")
            wr.append(("Time", v, 1e-6, "t"))
        else:
            v, t, tol = number(c, f"rep{j}", (FORMS_V if k == "Voltage" else FORMS_A) if focus == f"rep{j}" else ["T.5"])
            wr.append(("Ecell" if k == "Voltage" else "I", v, tol, "V" if k == "Voltage" else "A"))
        reps.append(rep(k, t))
    ends_v = ends[0] if len(ends) == 1 and c.params.get("single") else (ends or None)
    reps_v = reps[0] if len(reps) == 1 else reps
    if kind == "rest":
        s = step("Rest", None, None, None, ends_v, reps_v)
    else:
        mode = "Voltage" if kind == "cv" else "Current"
        cv_, ct, ctol = number(c, "ctrl", (FORMS_V if kind == "cv" else FORMS_A) if focus == "ctrl" else ["T.5"])
        lim = None
        if kind == "cccv":
            lv, lt, ltol = number(c, "lim", FORMS_V if focus == "lim" else ["T.5"])
            lim = {"Voltage": lt}
        s = step(ty, mode, ct, lim, ends_v, reps_v)
    rest = lambda: step("Rest", ends=end("StepTime", "=", 0, "00:01:00"), reports=rep("StepTime", "::10"))
    steps = [rest() for _ in range(n - 1)] + [step("End")]
    for j in range(n - 1):
        steps[j]["Ends"]["EndEntry"]["Step"] = str(j + 2).zfill(3)
    steps[i] = s
    parts = 2 if kind == "cccv" else 1
    sizes = [1, 1, parts, 1]
    split = c.choice("split", [None, 0, 3]) if focus == "target" else None
    if split is not None:                         # another step of two sequences, so that a jump can go to its first or second
        steps[split] = step("Charge", "Current", "1.0", {"Voltage": "4.0"}, end("Voltage", ">=", split + 2, "4.1"), rep("StepTime", "::10"))
        sizes[split] = 2
    first = [sum(sizes[:j]) for j in range(5)]    # first sequence of every step
    with scratch(c) as d:
        def run(m):
            m.max_voltage_v, m.min_voltage_v = 100.0, -100.0
        text, rules = convert(c, d, steps, run)
    techs = parse(text)
    c.require("one technique", len(techs) == 1 and techs[0][:2] == (1, "Modulo Bat"))
    cols = techs[0][2]
    c.require("one sequence per step part", len(cols) == first[4])
    if len(cols) != first[4]:
        return
    c.require("numbered", [x["Ns"] for x in cols] == [str(k) for k in range(len(cols))])
    seq_of = {1: first[0], 2: first[1], 3: first[2], 4: first[3], 5: 9999}
    for j in (0, 1, 3):
        if j == split:
            c.require(f"step {j} has its two parts", [cols[first[j] + k]["ctrl_type"] for k in (0, 1)] == ["CC", "CV"])
        else:
            c.require(f"step {j} is the other rest", cols[first[j]]["ctrl_type"] == "Rest" and cols[first[j]]["lim_nb"] == "1"
                      and cols[first[j]]["lim1_seq"] == str(first[j] + 1))
    q = cols[first[2] + parts - 1]                # the part with the step's own end conditions
    a = cols[first[2]]
    ch = "Charge" if ty == "Charge" else "Discharge"
    if kind == "rest":
        c.require("rest", q["ctrl_type"] == "Rest")
    elif kind == "cv":
        c.require("control", (q["ctrl_type"], q["charge/discharge"]) == ("CV", ch))
        quantity(c, "control", q, "ctrl1_val", cv_, ctol, "V")
    else:
        c.require("control", (a["ctrl_type"], a["charge/discharge"]) == ("CC", ch))
        quantity(c, "control", a, "ctrl1_val", cv_, ctol, "A")
        if kind == "cccv":
            c.require("hold", (q["ctrl_type"], q["charge/discharge"]) == ("CV", ch))
            quantity(c, "hold", q, "ctrl1_val", lv, ltol, "V")
            hit = [k for k in (1, 2, 3)[:int(a["lim_nb"])] if a[f"lim{k}_type"] == "Ecell" and a[f"lim{k}_seq"] == str(first[2] + 1)
                   and a[f"lim{k}_comp"] == (">" if ty == "Charge" else "<")]
            c.require("current part ends at the limit", len(hit) == 1)
            if hit:
                quantity(c, "limit", a, f"lim{hit[0]}_value", lv, ltol, "V")
    c.require("number of limits", q["lim_nb"] == str(len(wl)))
    for k, (t, comp, v, tol, kd, tgt) in enumerate(wl, 1):
        c.require(f"limit {k}", (q[f"lim{k}_type"], q[f"lim{k}_comp"]) == (t, comp))
        quantity(c, f"limit {k}", q, f"lim{k}_value", v, tol, kd)
        if tgt == 4:
            c.require(f"limit {k} goes on", q[f"lim{k}_seq"] == str(first[3]))
        else:
            c.require(f"limit {k} target", (q[f"lim{k}_action"], q[f"lim{k}_seq"]) == ("Goto sequence", str(seq_of[tgt])))
    for p in cols[first[2]:first[3]]:
        c.require("number of records", p["rec_nb"] == str(len(wr)))
        for k, (t, v, tol, kd) in enumerate(wr, 1):
            c.require(f"record {k}", p[f"rec{k}_type"] == t)
            quantity(c, f"record {k}", p, f"rec{k}_value", v, tol, kd)
    c.cover("reached")


def limits(c):
    """global limits: end conditions at or beyond them are dropped, ranges go to the header and every sequence"""
    vmax, vmin = c.real("vmax", 3, 5), c.real("vmin", 0, 3)
    imax, imin = c.real("imax", 1, 5), c.real("imin", 0, 1)
    if not c.symbolic:
        vmax, vmin, imax, imin = [round(x, 6) for x in (vmax, vmin, imax, imin)]
    use = c.choice("current_limits", [False, True])
    n = c.params["n"]
    ends, want = [], []
    opts = [("Voltage", ">="), ("Voltage", "<="), ("Current", ">="), ("Current", "<="), ("StepTime", "=")]
    for j in range(n):
        k, op = c.choice(f"kind{j}", opts) if n < 3 else opts[(j + c.params["rot"]) % 5]
        if k == "StepTime":
            ends.append(end(k, op, 2, "00:10:00"))
            want.append((k, ">", 600.0, True))
            continue
        v = c.real(f"v{j}", 0, 6)
        if not symbolic(v):
            v = round(v, 6)
        ends.append(end(k, op, 2, txt(v)))
        if k == "Voltage":
            keep = v < vmax if op == ">=" else v > vmin
        else:
            keep = not use or (v <= imax if op == ">=" else v >= imin)
        want.append((k, op[0], v, keep))
    kept = [w for w in want if bool(w[3])]
    single = n == 1 and c.params.get("single")
    steps = [step("Charge", "Current", "1.0", None, ends[0] if single else ends, rep("StepTime", "::10")),
             step("Rest", None, None, None, end("StepTime", "=", 3, "::30"), rep("StepTime", "::10")), step("End")]

    def run(m):
        m.max_voltage_v, m.min_voltage_v = vmax, vmin
        if use:
            m.max_current_a, m.min_current_a = imax, imin
        m.seq_mappers.append(lambda t, q, i: OrderedDict(q, **{"I Range": "1 A"}))
        m.seq_mappers.append(lambda t, q, i: OrderedDict(q, Bandwidth=str(t * 10 + i)))
        m.step_mappers.append(lambda s, k: OrderedDict(s, StepValue="2.0") if k == 1 else s)
    with scratch(c) as d:
        text, _ = convert(c, d, steps, run)
    head = text.split("\r\n")
    lo = [x for x in head if "Ecell min" in x][0].split("=")[1].strip()
    hi = [x for x in head if "Ecell max" in x][0].split("=")[1].strip()
    c.require("safety limits of the header", all_of(close(value(lo[:-2]), vmin, 0.0051), close(value(hi[:-2]), vmax, 0.0051)))
    techs = parse(text)
    cols = techs[0][2]
    c.require("sequences", len(techs) == 1 and len(cols) == 2)
    q = cols[0]
    c.require("step mapper applied", close(value(q["ctrl1_val"]), 2.0, 1e-9))
    for i, x in enumerate(cols):
        c.require("every sequence mapper applied", (x["I Range"], x["Bandwidth"]) == ("1 A", str(10 + i)))
        c.require("voltage range of the sequence", all_of(close(value(x["E range min (V)"]), vmin, 0.00051),
                                                          close(value(x["E range max (V)"]), vmax, 0.00051)))
    c.require("number of limits", q["lim_nb"] == str(len(kept)))
    if q["lim_nb"] == str(len(kept)):
        for k, (t, op, v, _) in enumerate(kept, 1):
            c.require(f"limit {k}", (q[f"lim{k}_type"], q[f"lim{k}_comp"]) ==
                      ({"Voltage": "Ecell", "Current": "|I|", "StepTime": "Time"}[t], op))
            quantity(c, f"limit {k}", q, f"lim{k}_value", v, 5.1e-4 if t != "StepTime" else 1e-6, {"Voltage": "V", "Current": "A"}.get(t, "t"))
    c.cover("dropped", len(kept) < len(want))


def refused(c):
    """what a Biologic protocol cannot express is refused"""
    kind = c.choice("kind", ["four ends", "four reports", "func", "end type", "goto before loop", "power", "single measurement",
                             "no measurement", "into technique"])
    v = c.real("v", 1, 4)
    if not symbolic(v):
        v = round(v, 3)
    e = lambda t=2: end("Voltage", ">=", t, txt(v))
    R = rep("StepTime", "::10")
    rest = lambda t: step("Rest", None, None, None, end("StepTime", "=", t, "::30"), R)
    loop = lambda t, k=1: step(f"Loop {k}", ends=end("Loop Cnt", "=", t, "3"))
    do = lambda k=1: step(f"Do {k}")
    adv = step("AdvCycle")
    cc = lambda **k: step("Charge", "Current", "1.0", None, k.get("ends", e()), k.get("reports", R))
    P = {"four ends": [cc(ends=[e()] * 4), rest(3), step("End")],
         "four reports": [cc(reports=[R] * 4), rest(3), step("End")],
         "func": [step("Chg Func", "Current", "0|4*CRATE", None, e(), R), step("End")],
         "end type": [cc(ends=end("Power", ">=", 2, txt(v))), step("End")],
         "goto before loop": [rest(2), do(), cc(ends=e(1)), rest(5), loop(6), step("End")],
         "power": [step("Charge", "Power", txt(v), None, e(), R), step("End")],
         "single measurement": [do(), rest(3), adv, loop(5), rest(6), step("End")],
         "no measurement": [rest(2), do(), adv, loop(5), rest(6), step("End")],
         "into technique": [cc(ends=e(3)), do(), rest(4), do(2), rest(6), rest(7), loop(8, 2), loop(9), rest(10), step("End")]}[kind]
    with scratch(c) as d:
        r, _ = raises((Exception,), lambda: convert(c, d, P, lambda m: setattr(m, "max_voltage_v", 100.0)))
    c.require("refused", r)
    c.cover("reached")


# ------------------------------------------------------------------ control flow and cycles

SKEL = {  # g: an advance-cycle step may stand here, G: only in the thorough tier
    "flat": "g M g M G S g M G E",
    "loop": "g M g D1 g M g M g L1 g M E",
    "first": "G D1 g S g L1 g M g M E",
    "twice": "D1 g M M g L1 G M g D1 g M G M g L1 M E",
    "nested": "M g D1 g M G D2 g M M g L2 G M g L1 g M E",
    "nested_first": "D1 g D2 G M M g L2 g L1 G M g D1 M D2 M M L2 G L1 M E",
    "single": "g M g D1 M L1 g M g D1 S L1 M E",
    "single_nested": "M g D1 M g D2 M L2 g M L1 M E",
    "three": "M D1 g M g M g M g L1 M E",
}


def build(c, skel):
    code = []
    for k, t in enumerate(skel.split()):
        if t in "gG":
            if (t == "g" or c.tier == "thorough") and c.choice(f"adv{k}", [False, True]):
                code.append("A")
        else:
            code.append(t)
    steps, counts, ident = [], {}, {}
    nid = 0
    for i, k in enumerate(code):
        if k in "MS":
            nid += 1
            R = rep("StepTime", f"::{nid}")
            ident[i] = nid
            if k == "M":
                steps.append(step("Rest", None, None, None, end("StepTime", "=", i + 2, "00:10:00"), R))
            else:
                steps.append(step("Charge", "Current", "1.0", {"Voltage": "4.2"}, end("Current", "<=", i + 2, "0.05"), R))
        elif k == "A":
            steps.append(step("AdvCycle"))
        elif k == "E":
            steps.append(step("End"))
        elif k[0] == "D":
            steps.append(step("Do " + k[1]))
        else:
            n = c.int(f"count{i}", 1, c.params["count"])
            counts[i] = n
            steps.append(step("Loop " + k[1], ends=end("Loop Cnt", "=", i + 2, txt(n))))
    return code, steps, counts, ident


CAP = 200


def run_maccor(code, counts, ident):
    pc, ctr, cyc, seen = 0, {}, 1, []
    while code[pc] != "E":
        k = code[pc]
        if k in "MS":
            seen.append((ident[pc], cyc))
            if k == "S":
                seen.append((ident[pc], cyc))
        elif k == "A":
            cyc += 1
        elif k[0] == "D":
            ctr[k[1]] = 0
        elif k[0] == "L":
            ctr[k[1]] += 1
            if ctr[k[1]] < counts[pc]:
                j = pc - 1
                while code[j] != "D" + k[1]:
                    j -= 1
                pc = j
        pc += 1
        if len(seen) > CAP:
            raise PathTooLong()
    return seen


class PathTooLong(Exception):
    pass


def run_biologic(techs, c):
    """visits: (technique number, sequence, loop iteration, id)"""
    seen = []
    t = 0
    while t < len(techs):
        num, ty, cols = techs[t]
        times = 1
        if t + 1 < len(techs) and techs[t + 1][1] == "Loop":
            lt = techs[t + 1]
            c.require("loop technique numbered", lt[0] == num + 1)
            c.require("loop technique goes back to it", lt[2][0]["goto Ne"] == str(num))
            times = value(lt[2][0]["nt times"])
        it = 0
        while it < times:
            pc, rep_ = 0, {}
            while pc < len(cols):
                q = cols[pc]
                if q["ctrl_type"] == "Loop":
                    rep_[pc] = rep_.get(pc, 0) + 1
                    if rep_[pc] <= value(q["ctrl_repeat"]):
                        pc = int(q["ctrl_seq"])
                        continue
                    rep_[pc] = 0
                    pc += 1
                    continue
                seen.append((num, pc, it, int(float(q["rec1_value"]))))
                nxt = int(q["lim1_seq"])
                pc = nxt
                if len(seen) > CAP:
                    raise PathTooLong()
            it += 1
        t += 2 if t + 1 < len(techs) and techs[t + 1][1] == "Loop" else 1
    return seen


def cycles(c):
    """the protocol visits the same measurements, and the rules give them the Maccor cycle numbers"""
    from beep.protocol.maccor_to_biologic_mb import add_cycle_nums_to_csvs
    code, steps, counts, ident = build(c, SKEL[c.params["skel"]])
    # a loop whose only recorded step is a single sequence cannot be told apart in the data (refused by the converter)
    want = run_maccor(code, counts, ident)
    rows = c.choice("rows", [1, 2])
    with scratch(c) as d:
        text, rules = convert(c, d, steps)
        techs = parse(text)
        seen = run_biologic(techs, c)
        c.require("same measurements in the same order", [s[3] for s in seen] == [w[0] for w in want])
        nums = [t[0] for t in techs if t[1] == "Modulo Bat"]
        c.require("techniques numbered", [t[0] for t in techs] == list(range(1, len(techs) + 1)))
        c.require("number of linked techniques", f"Number of linked techniques : {len(techs)}\r\n" in text)
        c.require("one rule file per technique", len(rules) == len(nums))
        if len(rules) != len(nums) or [s[3] for s in seen] != [w[0] for w in want]:
            return
        ins, outs, exp = [], [], []
        for n in nums:
            data = "Ns;Loop;x\n" + "".join(f"{q};{it};{k}\n" * rows for (m, q, it, k) in seen if m == n)
            ins.append(d.write(f"t{n}.csv", data))
            outs.append(d.path(f"r{n}.csv"))
            exp.append([w[1] for s, w in zip(seen, want) if s[0] == n for _ in range(rows)])
        add_cycle_nums_to_csvs(ins, rules, outs)
        for n, o, e in zip(nums, outs, exp):
            df = pd.read_csv(o, sep=";") if not c.symbolic else pd.read_csv(o, sep=";")
            c.require(f"cycle numbers of technique {n}", list(df["cycle_index"]) == e)
    c.cover("several cycles", want[-1][1] > 2)


def harnesses(tier):
    deep = tier == "thorough"
    L = dict(latin=True)
    H = []

    def S(name, **k):
        H.append(dict(name=name, fn=one_step, params=dict(L, **k), patches=mem_patches, weight=2))
    E = {"none": ([], ["StepTime", "Voltage", "Current"]), "v": (["Voltage", "StepTime"], ["StepTime"]),
         "t": (["StepTime"], ["Voltage", "StepTime"]), "i": (["Current", "Voltage", "StepTime"], ["Current"])}
    for kind in ("rest", "cc", "cv", "cccv"):
        for e, (ends, reports) in E.items():
            foci = [f"end{j}" for j in range(len(ends))] + [f"rep{j}" for j in range(len(reports))] + (["target"] if ends else [])
            if kind != "rest":
                foci.append("ctrl")
            if kind == "cccv":
                foci.append("lim")
            for f in foci:
                if deep or f in ("ctrl", "lim", "target") or kind == "cc" or f == "end0" or e == "none":
                    S(f"step_{kind}_{e}_{f}", kind=kind, ends=ends, reports=reports, focus=f, **({"single": True} if e == "t" else {}))
    for n, k in ((1, {}), (1, dict(single=True)), (2, {})):
        H.append(dict(name=f"limits_{n}{'s' if k else ''}", fn=limits, params=dict(L, n=n, **k), patches=mem_patches, weight=3))
    for r in range(5):
        H.append(dict(name=f"limits_3_{r}", fn=limits, params=dict(L, n=3, rot=r), patches=mem_patches, weight=3))
    H.append(dict(name="refused", fn=refused, params=dict(L), patches=mem_patches, weight=1))
    for s in SKEL:
        H.append(dict(name=f"cycles_{s}", fn=cycles, params=dict(L, skel=s, count=3 if deep or s == "loop" else 2),
                      patches=mem_patches, weight=8, max_paths=20000))
    return H
