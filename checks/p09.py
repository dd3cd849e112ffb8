"""P09: structuring as a whole, and structured runs survive serialisation."""
import copy
import json
import os
import shutil
import tempfile
from .common import *
from .p03 import build as cyc_build, PLAN

BOUNDS = {"all": "datapaths of 2-3 cycles x 2 steps x 2 rows (axis values concrete, other measurements symbolic), "
                 "resolution 2; all structuring parameters chosen from lists"}
OUTSIDE = ("larger runs; numbers whose decimal rendering in the JSON text is lossy (the symbolic run replaces the "
           "file by an in-memory copy; replays use real files)")
ASSUMPTIONS = ["json text round-trips python numbers exactly"]


def raw(c, cycles=(1, 2, 4), revisit=False):
    D, _ = cyc_build(c, list(cycles), 2, False, PLAN)
    n = len(D["voltage"])
    D["date_time_iso"] = [f"2020-01-01T00:{i:02d}:00+00:00" for i in range(n)]
    D["current"] = [abs(1.0) if s == 1 else -1.0 for s in D["step_index"]]
    D["discharge_energy"] = [0.5 + 0.25 * s for s in D["step_index"]]
    D["charge_energy"] = [0.75 + 0.25 * s for s in D["step_index"]]
    extra = [i for i in range(n) if D["cycle_index"][i] == cycles[-1] and D["step_index"][i] == 1] if revisit else []
    for i in extra:                     # the last cycle visits its first step again, with the same voltages
        for k in D:
            D[k].append(D[k][i])
        D["test_time"][-1] += 100.0
        D["date_time_iso"][-1] = f"2020-01-01T00:{len(D['voltage']):02d}:30+00:00"
    return frame(c, D)


def attrs(dp):
    return {k: getattr(dp, k) for k in ("structured_summary", "structured_data", "diagnostic_summary",
                                        "diagnostic_data")}


def compare(c, tag, a, b, tol=1e-5):
    """a: dict of frames, b: dict of snapshots/None"""
    for k in b:
        if b[k] is None:
            c.require(f"{tag}: {k} absent", a[k] is None)
            continue
        c.require(f"{tag}: {k} present", a[k] is not None)
        if a[k] is None:
            continue
        for l, t in same_frame(a[k], b[k], tol):
            c.require(f"{tag}: {k}: {l}", t)


def snaps(dp):
    return {k: (None if v is None else snapshot(v)) for k, v in attrs(dp).items()}


class Files:
    """an in-memory stand-in for the JSON file of one run (symbolic runs only)."""
    store = {}

    @classmethod
    def dump(cls, d, fn, *a, **k):
        cls.store[str(fn)] = copy.deepcopy(plain(d))


def plain(d):
    if isinstance(d, dict):
        return {str(k): plain(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [plain(x) for x in d]
    return pyval(d)


class _Handle:
    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Json:
    @staticmethod
    def load(f):
        return copy.deepcopy(Files.store[str(f.fn)])

    def __getattr__(self, k):
        return getattr(json, k)


def file_patches():
    import beep.structure.base as B
    out = []
    if "dumpfn" in vars(B):
        out.append((B, "dumpfn", Files.dump))
    if "zopen" in vars(B):
        out.append((B, "zopen", lambda fn, *a, **k: _Handle(fn)))
    if "json" in vars(B):
        out.append((B, "json", _Json()))
    return out


def structured(c, diag=None, **kw):
    from beep.structure.diagnostic import DiagnosticConfig
    df = raw(c, revisit=bool(diag))
    dp = make_datapath(df, metadata={"barcode": "bc1", "protocol": "p.sdu", "channel_id": 7, "extra": [1, "x"]},
                       schema="schema-arbin-lfp.yaml", paths={"raw": "/data/r.csv", "metadata": "/data/m.csv"})
    if diag:
        dp.diagnostic = DiagnosticConfig(diag, parameter_set="Tesla21700")
    return dp


OPTS = [dict(v_range=[2.9, 3.4], resolution=2, diagnostic_resolution=2, nominal_capacity=4.84,
             full_fast_charge=0.5, charge_axis="voltage", discharge_axis="voltage", exclude_cycles=[2]),
        dict(v_range=[2.8, 3.5], resolution=3, diagnostic_resolution=2, nominal_capacity=1.0,
             full_fast_charge=0.7, charge_axis="charge_capacity", discharge_axis="test_time", exclude_cycles=None)]


def pipeline(c):
    """structure() = the individual operations with the parameters given, which are recorded."""
    diag = c.choice("diag", [None, {"rpt": [4]}, {"hppc": [1, 4]}])
    o = c.choice("opts", OPTS)
    dp = structured(c, diag)
    dp2 = structured(c, diag)
    c.require("a fresh datapath is not structured", not dp.is_structured)
    snap = snapshot(dp.raw_data)
    dp.structure(**o)
    c.require("structured", dp.is_structured)
    for l, t in same_frame(dp.raw_data, snap):
        c.require("raw data: " + l, t)
    exp = {"structured_data": snapshot(dp2.interpolate_cycles(
        v_range=o["v_range"], resolution=o["resolution"], charge_axis=o["charge_axis"],
        discharge_axis=o["discharge_axis"], exclude_cycles=o["exclude_cycles"]))}
    exp["structured_summary"] = snapshot(dp2.summarize_cycles(
        nominal_capacity=o["nominal_capacity"], full_fast_charge=o["full_fast_charge"]))
    exp["diagnostic_summary"] = snapshot(dp2.summarize_diagnostic()) if diag else None
    exp["diagnostic_data"] = snapshot(dp2.interpolate_diagnostic_cycles(
        time_resolution=o["diagnostic_resolution"], voltage_resolution=o["diagnostic_resolution"])) if diag else None
    compare(c, "structure()", attrs(dp), exp)
    c.require("parameters recorded", {k: dp.structuring_parameters.get(k, "?") for k in o} == o)
    again = snaps(dp)
    # unstructure, then structure again
    dp.unstructure()
    c.require("unstructure clears everything", not dp.is_structured and all(v is None for v in attrs(dp).values())
              and dp.structuring_parameters == {})
    from beep.structure.diagnostic import DiagnosticConfig
    if diag:
        dp.diagnostic = DiagnosticConfig(diag, parameter_set="Tesla21700")
    dp.structure(**o)
    compare(c, "structure() after unstructure()", attrs(dp), again)
    c.cover("reached")


def round_trip(c):
    diag = c.choice("diag", [None, {"rpt": [4], "hppc_x": [1]}])
    dp = structured(c, diag)
    st = c.choice("structured", [True, False])
    o = OPTS[0] if not diag else dict(OPTS[0], exclude_cycles=None)
    if st:
        dp.structure(**o)
    want = snaps(dp)
    raw_snap = snapshot(dp.raw_data)
    how = c.choice("how", ["dict", "file", "file_with_raw"])
    cls = type(dp)
    tmp = None
    try:
        if how == "dict":
            d = dp.as_dict()
            back = cls.from_dict(copy.deepcopy(plain(d)))
        else:
            if c.symbolic:
                fn = "/scratch/run_structure.json"
            else:
                tmp = tempfile.mkdtemp()
                fn = os.path.join(tmp, "run_structure.json" + c.choice("gz", ["", ".gz"]))
            dp.to_json_file(fn, omit_raw=(how == "file"))
            back = cls.from_json_file(fn)
    finally:
        if tmp:
            shutil.rmtree(tmp)
    c.cover(how)
    compare(c, "round trip", attrs(back), want)
    c.require("structuredness survives", back.is_structured == st)
    c.require("parameters survive", plain(back.structuring_parameters) == plain(dp.structuring_parameters))
    c.require("identity survives", (back.metadata.barcode, back.metadata.protocol, back.metadata.channel_id) ==
              ("bc1", "p.sdu", 7))
    c.require("paths survive", back.paths.get("raw") == "/data/r.csv" and back.paths.get("metadata") == "/data/m.csv")
    c.require("schema survives", back.schema == dp.schema)
    if diag:
        c.require("diagnostic configuration survives", back.diagnostic is not None
                  and {k: set(v) for k, v in back.diagnostic.cycles.items()} == {k: set(v) for k, v in diag.items()}
                  and back.diagnostic.params == {"parameter_set": "Tesla21700"})
    else:
        c.require("no diagnostic invented", back.diagnostic is None)
    if how != "file":
        for l, t in same_frame(back.raw_data, raw_snap, 1e-9):
            c.require("raw data survives: " + l, t)
        c.require("all metadata survives", plain(back.metadata.raw) == plain(dp.metadata.raw))
    else:
        c.require("raw data omitted", back.raw_data is None)
        for f in (back.as_dict, back.validate, back.structure, back.unstructure):
            bad, _ = raises((ValueError,), f)
            c.require("operations that need the raw data are refused", bad)
    if how != "dict":
        c.require("the structured file is recorded", str(back.paths.get("structured")).startswith("/")
                  and "run_structure.json" in back.paths["structured"])


OPS = ["structure_same", "structure_other", "unstructure", "save", "look", "other_diagnostic", "reload"]


def history(c):
    """whatever was done before, structuring gives what it gives on fresh data"""
    from beep.structure.diagnostic import DiagnosticConfig
    diag, other = {"rpt": [4]}, {"hppc": [1, 4]}
    dp, fresh = structured(c, diag), structured(c, diag)
    snap = snapshot(dp.raw_data)
    cls = type(dp)
    for k in range(c.params["ops"]):
        op = c.choice(f"op{k}", OPS)
        if op.startswith("structure"):
            dp.structure(**OPTS[0 if op == "structure_same" else 1])
        elif op == "unstructure":
            dp.unstructure()
        elif op == "save":
            dp.as_dict()
        elif op == "look":
            dp.validate() if not c.symbolic else None
            dp.summarize_cycles(nominal_capacity=2.0, full_fast_charge=0.6)
            dp.interpolate_cycles(v_range=[2.7, 3.6], resolution=2)
            dp.interpolate_step([2.9, 3.3], resolution=2, step_type="charge", axis="voltage") if c.params["ops"] > 5 else None
        elif op == "other_diagnostic":
            dp.diagnostic = DiagnosticConfig(other)
            dp.structure(**OPTS[1])
        else:
            dp = cls.from_dict(copy.deepcopy(plain(dp.as_dict())))
    o = OPTS[0]
    dp.diagnostic = DiagnosticConfig(diag, parameter_set="Tesla21700")
    dp.structure(**o)
    fresh.structure(**o)
    compare(c, "after the history", attrs(dp), snaps(fresh))
    c.require("parameters of the last structuring", plain(dp.structuring_parameters) == plain(fresh.structuring_parameters))
    for l, t in same_frame(dp.raw_data, snap, 1e-9):
        c.require("raw data: " + l, t)
    c.cover("reached")


def identity(c):
    """what a run is made of is what it was given: columns, paths, metadata, schema and identity"""
    import beep
    from beep.structure.base import BEEPDatapath
    tmp = tempfile.mkdtemp()
    try:
        own = os.path.join(tmp, "own.yaml")
        same = os.path.join(tmp, "schema-arbin-lfp.yaml")
        lib = os.path.join(beep.VALIDATION_SCHEMA_DIR, "schema-arbin-lfp.yaml")
        for f in (own, same):
            with open(f, "w") as h:
                h.write("a: {}\n")
        kind = c.choice("schema", ["none", "name", "own", "same name", "moved", "unknown name", "unknown path"])
        arg, want = {"none": (None, None), "name": ("schema-arbin-lfp.yaml", lib), "own": (own, own), "same name": (same, same),
                     "moved": ("/no/such/folder/schema-arbin-lfp.yaml", lib), "unknown name": ("no-such-schema.yaml", None),
                     "unknown path": (os.path.join(tmp, "gone.yaml"), None)}[kind]
        cols = {"cycle_index": [1, 2], "voltage": [c.real(f"v{i}", 2, 4) for i in range(2)]}
        have = {k: c.choice(k, [True, False]) for k in ("temperature", "internal_resistance")}
        for k, h in have.items():
            if h:
                cols[k] = [c.real(f"{k}{i}", 0, 40) for i in range(2)]
        impute = c.choice("impute", [True, False])
        df = frame(c, cols)
        snap = snapshot(df)
        md = {"barcode": c.choice("barcode", ["b", None]), "protocol": "p", "channel_id": 3, "more": {"x": 1}}
        if c.choice("without channel", [False, True]):
            md.pop("channel_id")
        paths = c.choice("paths", ["none", "absolute", "relative", "empty"])
        given = {"none": None, "absolute": {"raw": "/d/r.csv", "eis": "/d/e.csv"}, "relative": {"raw": "/d/r.csv", "eis": "e.csv"},
                 "empty": {"raw": "/d/r.csv", "metadata": None}}[paths]

        class Run(BEEPDatapath):
            @classmethod
            def from_file(cls, path):
                raise NotImplementedError
        bad, dp = raises((ValueError, FileNotFoundError),
                         lambda: Run(df, md, paths=given, schema=arg, impute_missing=impute))
        if paths == "relative" or kind.startswith("unknown"):
            c.require("refused", bad)
            c.cover("refused")
            return
        c.require("accepted", not bad)
        c.require("schema", dp.schema == want)
        c.require("paths", dp.paths == (given or {"raw": None}))
        c.require("metadata", (dp.metadata.barcode, dp.metadata.protocol, dp.metadata.channel_id, dp.metadata.raw)
                  == (md["barcode"], "p", md.get("channel_id"), md))
        c.require("columns", set(dp.raw_data.columns) == set(cols) | ({"temperature", "internal_resistance"} if impute else set()))
        for k, h in have.items():
            if impute and not h:
                c.require(f"{k} missing", all(is_nan(x) is True for x in dp.raw_data[k]))
        for l, t in same_frame(dp.raw_data[list(cols)], snap, 1e-12):
            c.require("data as given: " + l, t)
        c.require("not structured", not dp.is_structured and dp.diagnostic is None and dp.structuring_parameters == {})
        part = c.choice("part", ["structured_summary", "structured_data", "diagnostic_summary", "diagnostic_data"])
        first = dp.semiunique_id
        setattr(dp, part, pd.DataFrame({"x": [1]}))
        c.require("structured as soon as one table is there", dp.is_structured and dp.semiunique_id != first)
        setattr(dp, part, None)
        c.require("the identity is that of the state", dp.semiunique_id == first)
        for a, v in (("barcode", "q"), ("protocol", "q"), ("channel_id", 77)):
            other = Run(frame(c, cols), dict(md, **{a: v}), paths=given, schema=arg, impute_missing=impute)
            c.require(f"another {a}, another identity", other.semiunique_id != first)
        other = Run(frame(c, cols), dict(md), paths=dict(given or {}, raw="/d/q.csv"), schema=arg, impute_missing=impute)
        c.require("another file, another identity", other.semiunique_id != first)
        other = Run(frame(c, cols), dict(md), paths=given, schema=arg, impute_missing=impute)
        c.require("the same run, the same identity", other.semiunique_id == first)
        for v in ({"rpt": [1]}, [1], "rpt"):
            c.require("a diagnostic is a configuration", raises((TypeError,), lambda: setattr(dp, "diagnostic", v))[0] and dp.diagnostic is None)
        c.cover("reached")
    finally:
        shutil.rmtree(tmp)


def harnesses(tier):
    return [dict(name="history", fn=history, params=dict(ops=3 if tier == "thorough" else 2), weight=4),
            dict(name="identity", fn=identity, weight=4, max_paths=6000),
            dict(name="pipeline", fn=pipeline, weight=3),
            dict(name="round_trip", fn=round_trip, patches=file_patches, weight=3)]
