"""P30: a run's parameters are those of its project's table; diagnostics and images are found where they are."""
import types
from .feat import *
from .cli import world, txt, raises

BOUNDS = {"all": "parameter tables of 1-3 rows with symbolic sequence numbers and values in any column order, several forms of file name, 0-2 "
                 "table files per project; runs of 11-14 cycles whose cycles have one of several step sets, every start cycle; images of "
                 "2 diagnostics x 2 cycle types x 2 steps x 2-3 points with symbolic readings and missing points"}
OUTSIDE = ("runs whose cycle numbers have gaps inside a diagnostic; diagnostic types other than HPPC+RPT; sequence numbers that are not numbers; "
           "a project whose name is the beginning of another project's in the same directory (refused by the code)")
ASSUMPTIONS = ["missing points of a step are filled from their neighbours as the code documents (forward, then backward)"]

NAMES = [("/data/Proj_%s_0002F.074", "Proj"), ("Proj_%s.csv", "Proj"), ("/a_b/c.d/Proj_%s_x_y_structure.json", "Proj"),
         ("/Other_5/Proj_%s_00.0.1", "Proj")]


def table_file(c, d, name, cols, rows):
    d.write(name, table(cols, rows))


def lookup(c):
    from beep.deprecated import parameters_lookup as L
    n = c.params["n"]
    pattern, project = c.choice("path", NAMES)
    seq = [c.int(f"seq{i}", 0, 400) for i in range(n)]
    val = [c.real(f"v{i}", 0.1, 10) for i in range(n)]
    cut = [c.real(f"lo{i}", 1, 4) for i in range(n)]
    asked = c.choice("number", ["000100", "7", "0399"])
    count = c.choice("files", [0, 1, 2])
    cols = c.choice("columns", [["project_name", "seq_num", "capacity_nominal", "discharge_cutoff_voltage"],
                                ["discharge_cutoff_voltage", "capacity_nominal", "seq_num"]])
    with scratch(c) as d:
        def row(i):
            return [{"project_name": project, "seq_num": seq[i], "capacity_nominal": val[i], "discharge_cutoff_voltage": cut[i]}[k] for k in cols]
        rows = [row(i) for i in range(n)]
        d.write("Another_parameters.csv", table(cols, [row(0)]))
        for k in range(count):
            d.write(project + ["_parameters - GP.csv", "_parameters_2.csv"][k], table(cols, rows))
        path = pattern % asked
        c.require("parts of the file name", L.get_project_sequence(path)[:2] == [project, asked])
        if count == 2:
            r, _ = raises((AssertionError,), lambda: L.get_protocol_parameters(path, d.root))
            c.require("several tables for a project are refused", r)
            c.cover("refused")
            return
        got, everything = L.get_protocol_parameters(path, d.root)
    mine = [i for i in range(n) if bool(seq[i] == int(asked))] if count else []
    if not mine:
        c.require("a run without parameters has none", got is None and everything is None)
        c.cover("none")
        return
    c.require("found", got is not None and everything is not None)
    if got is None or everything is None:
        return
    c.require("columns", list(got.columns) == cols and list(everything.columns) == cols)
    c.require("its rows", len(got) == len(mine) and len(everything) == n)
    if len(got) == len(mine) and list(got.columns) == cols:
        for k, i in enumerate(mine):
            c.require("values of its row", all_of([same_cell(got[q].iloc[k], v) for q, v in zip(cols, rows[i])]))
    if len(everything) == n and list(everything.columns) == cols:
        for i in range(n):
            c.require("all rows of the project", all_of([same_cell(everything[q].iloc[i], v) for q, v in zip(cols, rows[i])]))
    c.cover("found")


def diagnostic(c):
    from beep.deprecated.parameters_lookup import get_diagnostic_parameters as f
    n = c.params["n"]
    sets = ["Tesla21700", "A123", "Tesla"][:n]
    lo = [c.real(f"lo{i}", 1, 3.4) for i in range(n)]
    hi = [c.real(f"hi{i}", 3.5, 5) for i in range(n)]
    cols = c.choice("columns", [["diagnostic_parameter_set", "diagnostic_charge_cutoff_voltage", "diagnostic_discharge_cutoff_voltage", "x"],
                                ["x", "diagnostic_discharge_cutoff_voltage", "diagnostic_charge_cutoff_voltage", "diagnostic_parameter_set"]])
    count = c.choice("files", [0, 1, 2])
    k = c.choice("set", list(range(n)))
    with scratch(c) as d:
        for j in range(count):
            rows = [[{"diagnostic_parameter_set": sets[i], "diagnostic_charge_cutoff_voltage": hi[i], "x": 9.0 + i,
                      "diagnostic_discharge_cutoff_voltage": lo[i]}[q] for q in cols] for i in range(n)]
            d.write("PreDiag" + ["_parameters - DP.csv", "2.csv"][j], table(cols, rows))
        d.write("Form_parameters - DP.csv", table(cols, [["A123", "1", "2", "3"]]))
        if count == 2:
            r, _ = raises((AssertionError,), lambda: f({"parameter_set": sets[k]}, d.root, "PreDiag"))
            c.require("several tables are refused", r)
            return
        got = f({"parameter_set": sets[k]}, d.root, "PreDiag")
    want = [lo[k], hi[k]] if count else [2.7, 4.2]
    c.require("lower and upper limit", len(got) == 2 and all_of([close(a, b) for a, b in zip(got, want)]))
    c.cover("table", count == 1)
    c.cover("default", count == 0)


STEPS = {"reset": [1, 2], "hppc": [3, 4, 5], "rpt_a": [6, 7], "rpt_b": [8, 9], "rpt_c": [10, 11], "reset2": [21, 22], "hppc2": [23, 24, 25, 32],
         "rpt_a2": [26, 27], "rpt_b2": [28, 29], "rpt_c2": [30, 31], "cycle": [12, 13, 14], "odd": [12, 13], "last": [15],
         "reset3": [41, 42], "hppc3": [43, 44, 45], "hppc4": [43, 44, 45, 48], "x": [46, 47]}
FIRST = ["reset", "hppc", "rpt_a", "rpt_b", "rpt_c"]
SECOND = ["reset2", "hppc2", "rpt_a2", "rpt_b2", "rpt_c2"]
FINAL = ["reset3", "hppc3", "x", "x", "x"]
FINALB = ["reset3", "hppc4", "x", "x", "x"]
TAILS = [[], FINAL, FINALB, FINALB + ["last"], ["cycle"] + FINALB[:4], FINAL + ["last"], ["cycle"], ["odd"] + FINAL, FINAL[:3], SECOND, ["cycle"] + SECOND + ["cycle"],
         FINAL + ["odd", "last"], FINAL + ["cycle"] * 3]


def starts(cycles, start):
    """cycle numbers at which a diagnostic starts, from the cycles' step sets"""
    steps = {i: set(STEPS[k]) for i, k in cycles}
    n = {i: len(s) for i, s in steps.items()}
    one, two = 1, 6 + start
    pattern = [[n.get(a + j, 0) for j in range(5)] for a in (one, two)]
    top = max(steps)
    out = []
    for i in steps:
        if steps[i] in (steps.get(one, set()), steps.get(two, set())):
            out.append(i)
        elif i >= top - 6 and [n.get(i + j, 0) for j in range(5)] in pattern:
            out.append(i)
    return out


def structuring(c):
    from beep.deprecated.parameters_lookup import determine_structuring_parameters as f
    bad = c.choice("directory", ["there", "missing", "none"]) if c.params["part"] == "settings" else "there"
    start = c.choice("start", [2, 3]) if c.params["part"] == "cycles" else 2
    first = c.choice("first cycle", [0, 1]) if c.params["part"] == "cycles" else 0
    tail = c.choice("tail", TAILS if c.params["part"] == "cycles" else TAILS[:2])
    mid = c.choice("cycles between", ["cycle", "odd"]) if c.params["part"] == "cycles" else "cycle"
    kinds = (["last"] if first == 0 else []) + FIRST + [mid] * start + SECOND + tail
    cycles = [(first + i, k) for i, k in enumerate(kinds)]
    n = 2
    has = "all" if c.params["part"] == "cycles" else c.choice("has", ["all", "no type", "no capacity", "no cutoffs", "other type", "no row", "no table"])
    cap = [c.real(f"cap{i}", 0.1, 10) for i in range(n)]
    lo = [c.real(f"lo{i}", 1, 3.4) for i in range(n)]
    hi = [c.real(f"hi{i}", 3.5, 5) for i in range(n)]
    dflt = c.real("default capacity", 0.1, 10)
    cols = ["seq_num", "capacity_nominal", "discharge_cutoff_voltage", "charge_cutoff_voltage", "diagnostic_type", "diagnostic_start_cycle",
            "diagnostic_interval", "diagnostic_parameter_set"]
    drop = {"no type": cols[4:5], "no capacity": cols[1:2], "no cutoffs": cols[2:3]}.get(has, [])
    rows = [[[7, 8][i], cap[i], lo[i], hi[i], "HPPC+RPT" if has != "other type" else "RPT", [start, 99][i], [100, 50][i], ["A123", "Tesla"][i]]
            for i in range(n)]
    idx, st = [], []
    for i, k in cycles:
        for s in STEPS[k] + STEPS[k][:1]:
            idx.append(i)
            st.append(s)
    raw = pd.DataFrame({"cycle_index": idx, "step_index": st, "voltage": [3.5] * len(idx)})
    before = raw.copy()
    own, res, fast = c.choice("settings", [([2.5, 4.0], 500, 0.7), (None, 1000, 0.8)])
    with world(c) as w:
        if has != "no table":
            keepc = [j for j, k in enumerate(cols) if k not in drop]
            w.write("Proj_parameters.csv", table([cols[j] for j in keepc], [[r[j] for j in keepc] for r in rows]))
        me = types.SimpleNamespace(paths={"raw": "/data/Proj_%s_x.074" % ("000009" if has == "no row" else "000007")}, raw_data=raw)
        args = dict(v_range=own, resolution=res, nominal_capacity=dflt, full_fast_charge=fast)
        if bad != "there":
            r, _ = raises((FileNotFoundError,), lambda: f(me, parameters_path=w.path("nowhere") if bad == "missing" else None, **args))
            c.require("a missing directory is refused", r)
            c.cover("refused")
            return
        got = f(me, parameters_path=w.tmp, **args)
    c.require("five results", len(got) == 5)
    v, r, nom, ffc, diag = got
    found = has not in ("no row", "no table")
    c.require("resolution and fast charge as given", r == res and ffc == fast)
    c.require("nominal capacity", close(nom, cap[0] if found and has != "no capacity" else dflt))
    if found and has != "no cutoffs":
        c.require("widest voltage range of the project", v is not None and len(v) == 2 and close(v[0], smin(lo)) and close(v[1], smax(hi)))
    else:
        c.require("voltage range as given", v == own)
    if found and has not in ("no type", "other type"):
        c.require("diagnostic", isinstance(diag, dict) and diag["parameter_set"] == "A123" and diag["length"] == 5
                  and list(diag["cycle_type"]) == ["reset", "hppc", "rpt_0.2C", "rpt_1C", "rpt_2C"])
        if isinstance(diag, dict):
            c.require("diagnostics start where they do", list(diag["diagnostic_starts_at"]) == starts(cycles, start))
            c.cover("final diagnostic", len(starts(cycles, start)) > 2)
    else:
        c.require("no diagnostic", diag is False or diag is None)
    c.require("the run is not modified", raw.equals(before))
    c.cover("has row", found)


def protocol(c):
    from beep.features.core import ChargingProtocol as K
    dflt = list(K.DEFAULT_HYPERPARAMETERS["quantities"])
    vals = [[c.real(f"{q}_{i}", 0.1, 10) for q in dflt] for i in range(2)]
    which = c.choice("run", [0, 1])
    order = c.choice("columns", [dflt, dflt[::-1]])
    ask = c.choice("quantities", [None, dflt[1:3], ["seq_num", dflt[0]], dflt[::-1]])
    paths = c.choice("paths", ["both", "raw", "structured", "neither"])
    with scratch(c) as d:
        d.write("PreDiag_parameters.csv", table(["project_name", "seq_num"] + order,
                                                [["PreDiag", [240, 241][i]] + [vals[i][dflt.index(q)] for q in order] for i in range(2)]))
        mine, other = [("/r/PreDiag_000240_x.092", "/r/PreDiag_000241_x.092")[k] for k in (which, 1 - which)]
        p = {"both": {"raw": mine, "structured": other}, "raw": {"raw": mine}, "structured": {"structured": mine}, "neither": {"x": mine}}[paths]
        dp = Datapath(paths=p, diagnostic_summary=pd.DataFrame({"cycle_index": [0, 1]}), diagnostic_data=pd.DataFrame({"cycle_index": [0, 1]}))
        h = {"parameters_dir": d.root, "quantities": list(ask or dflt)}
        was = list(h["quantities"])
        f = K(dp, h)
        if paths == "neither":
            c.require("a run without paths is refused", f.validate()[0] is False)
            return
        f.create_features()
    X = f.features
    names = ask or dflt
    c.require("quantities asked for, in order", list(X.columns) == list(names) and len(X) == 1)
    if list(X.columns) == list(names) and len(X) == 1:
        for q in names:
            c.require("value of the run", same_cell(X[q].iloc[0], [240, 241][which] if q == "seq_num" else vals[which][dflt.index(q)]))
    c.require("settings stay", f.hyperparameters["quantities"] == was and K.DEFAULT_HYPERPARAMETERS["quantities"] == dflt)
    c.cover("reached")


def valid(c):
    """a run without diagnostics is refused"""
    from beep.features import core as F
    K = getattr(F, c.choice("class", ["ChargingProtocol", "RawInterpolatedData"]))
    cap = c.real("cap", 0, 5)
    kind = c.choice("summary", ["rows", "empty", "none", "not structured"])
    df = frame(c, {"cycle_index": [1], "discharge_capacity": [cap]})
    dp = Datapath(diagnostic_data=df, diagnostic_summary={"rows": df, "empty": df.iloc[:0], "none": None, "not structured": None}[kind])
    if kind == "not structured":
        del dp.diagnostic_summary
    ok, why = K(dp, None).validate()
    c.require("valid exactly with diagnostics", bool(ok) == (kind == "rows"))
    c.require("the reason is given", ok or bool(why))
    c.cover("valid" if ok else "refused")


def image(c):
    from beep.features.core import RawInterpolatedData as K
    n, metric = c.params["n"], c.params["metric"]
    impute = c.choice("impute", [True, False])
    types_ = ["rpt_0.2C", "rpt_1C"]
    three = c.choice("three steps", [None, "rpt_0.2C"])
    pos = c.choice("positions", [[0, 1], [1], [1, 0]])
    place = c.choice("row order", ["by cycle", "by type last first"])
    gaps = c.choice("missing", [(), ("end",), ("start",), ("middle",)] if metric != "test_time" else [()])
    rows, V = [], {}
    two = metric in ("capacity", "energy")
    cols = {"capacity": ["charge_capacity", "discharge_capacity"], "energy": ["charge_energy", "discharge_energy"],
            "dQdV": ["charge_dQdV", "discharge_dQdV"], "test_time": ["test_time"], "voltage": ["voltage"]}[metric]
    for v, base in enumerate((1, 36)):
        for k, ty in enumerate(types_):
            for s in range(3 if ty == three else 2):
                for i in range(n):
                    miss = v == 1 and s == 1 and (("end" in gaps and i == n - 1) or ("start" in gaps and i == 0) or ("middle" in gaps and i == 1 < n - 1))
                    sym = (v, ty) == (1, "rpt_1C") if two else ty == "rpt_1C" or v == 0
                    x = [float("nan") if miss and q != "test_time" else
                         c.real(f"{q}_{v}_{k}_{s}_{i}", 0, 5) if sym and not (v == 0 and k == 0) else
                         1.0 + 0.25 * i * (-1) ** j + s / 8 + v / 32 + k / 64 for j, q in enumerate(cols)]
                    V[v, ty, s, i] = x
                    rows.append(dict(cycle_index=base + k, cycle_type=ty, step_index=[3, 5, 8][s] + 10 * k, **dict(zip(cols, x))))
    if place != "by cycle":
        rows = [r for ty in types_[::-1] for r in rows if r["cycle_type"] == ty]
    df = frame(c, {k: [r[k] for r in rows] for k in rows[0]})
    dp = Datapath(diagnostic_data=df, diagnostic_summary=pd.DataFrame({"cycle_index": [1, 2]}))
    unchanged = keep(c, dp)
    h = {"metrics": [metric], "cycle_types": list(types_), "diag_positions": list(pos), "impute": impute}
    f = K(dp, dict(h))
    f.create_features()
    X = f.features
    names = [f"diag_cycle_{p}_{ty}_{metric}_step_{s}" for ty in types_ if ty != three for s in range(2) for p in pos]
    c.require("columns", list(X.columns) == names and len(X) == 1)
    if list(X.columns) != names or len(X) != 1:
        return
    for ty in types_:
        if ty == three:
            continue
        for s in range(2):
            for p in pos:
                got = X[f"diag_cycle_{p}_{ty}_{metric}_step_{s}"].iloc[0]
                data = [V[p, ty, s, i] for i in range(n)]
                if metric in ("capacity", "energy"):
                    known = [x[0] for x in data if not is_nan(x[0])]
                    top = smax(known) if known else float("nan")
                    want = [float("nan") if is_nan(x[0]) else smin([x[0], top - x[1]]) for x in data]
                    if impute:
                        want = fill(want)
                elif metric == "test_time":
                    t0 = smin([x[0] for x in data])
                    want = [x[0] - t0 for x in data]
                elif metric == "dQdV":
                    want = [x[0] + x[1] for x in data]
                    if impute:
                        want = [0.0 if is_nan(x) is True else x for x in want]
                else:
                    want = [x[0] for x in data]
                c.require("length", len(got) == n)
                if len(got) == n:
                    c.require(f"values of position {p}, {ty}, step {s}", all_of([same_cell(a, b) if is_nan(b) is True else close(a, b) for a, b in zip(got, want)]))
    unchanged()
    c.cover("reached")


def fill(xs):
    out = list(xs)
    for i in range(1, len(out)):
        if is_nan(out[i]) is True:
            out[i] = out[i - 1]
    for i in range(len(out) - 2, -1, -1):
        if is_nan(out[i]) is True:
            out[i] = out[i + 1]
    return out


def harnesses(tier):
    deep = tier == "thorough"
    H = [dict(name="lookup", fn=lookup, params=dict(n=3 if deep else 2), patches=feature_patches, weight=3),
         dict(name="diagnostic", fn=diagnostic, params=dict(n=3), patches=feature_patches, weight=1),
         dict(name="structuring_cycles", fn=structuring, params=dict(part="cycles"), patches=feature_patches, weight=6),
         dict(name="structuring_settings", fn=structuring, params=dict(part="settings"), patches=feature_patches, weight=6),
         dict(name="protocol", fn=protocol, params={}, patches=feature_patches, weight=2),
         dict(name="valid", fn=valid, params={}, patches=feature_patches, weight=1)]
    for m in ("capacity", "energy", "test_time", "dQdV", "voltage"):
        H.append(dict(name=f"image_{m}", fn=image, params=dict(n=3 if deep else 2, metric=m), patches=feature_patches, weight=4))
    return H
