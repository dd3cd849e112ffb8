"""P26: `beep featurize` collects exactly the features that were made, reports each attempt, and no file spoils another."""
import copy
import numbers
from .cli import *

BOUNDS = {"all": "1-3 structured files and 1-3 featurizers (beep's own by name or set, external ones by import path, with and without "
                 "hyperparameters); each file may be unreadable as a structured run, each featurizer may fail to construct, be "
                 "invalid, raise while making features, fail to be saved once or be interrupted; with and without --halt-on-error and intermediate files; "
                 "structured values and features symbolic"}
OUTSIDE = ("what each featurizer computes and what the matrix makes of the features (other properties); the same featurizer with the "
           "same hyperparameters given twice; an input file that does not exist is either an error of the command or a failed file")
ASSUMPTIONS = ["a featurizer's construction, validation and feature creation succeed or fail as the fault schedule says (stubs); loading "
               "the structured file, the matrix, the files written and click's option parsing are the real code"]

STAGES = ["ok", "construct", "invalid", "validate", "create"]
OWN = ["HPPCResistanceVoltageFeatures", "DeltaQFastCharge", "DiagnosticSummaryStats", "CycleSummaryStats"]
TARGETS = ["TrajectoryFastCharge", "DiagnosticProperties"]
CODE = {n: i + 1 for i, n in enumerate(OWN + TARGETS + ["External", "IntracellCycles", "IntracellFeatures"])}


def external():
    """an installed package with a featurizer of its own"""
    import sys
    import types
    from beep.features.base import BEEPFeaturizer
    if "verif_external" not in sys.modules:
        m = types.ModuleType("verif_external")
        m.External = type("External", (BEEPFeaturizer,), dict(DEFAULT_HYPERPARAMETERS={"p": 1, "q": [1, 2]}, __module__="verif_external",
                                                              validate=lambda self: (True, None), create_features=lambda self: None))
        m.Other = type("Other", (), {"__module__": "verif_external"})
        sys.modules["verif_external"] = m
    return sys.modules["verif_external"]


def classes():
    import beep.features.core as F
    import beep.features.intracell_losses as L
    return {**{n: getattr(F, n) for n in OWN + TARGETS}, "IntracellCycles": L.IntracellCycles, "IntracellFeatures": L.IntracellFeatures,
            "External": external().External}


def featurizers(plan, log):
    """stubs of every featurizer's steps"""
    out = []

    def fail(self, stage):
        n = type(self).__name__
        p = plan(self.paths["structured"], n, self.hyperparameters)
        if p == stage:
            raise ValueError(f"planned {stage} failure of {n}")
        if p == "interrupt-" + stage:
            raise KeyboardInterrupt()

    def validate(self):
        fail(self, "validate")
        n = type(self).__name__
        if plan(self.paths["structured"], n, self.hyperparameters) == "invalid":
            return False, "planned invalid failure of " + n
        return True, None

    def create(self):
        n = type(self).__name__
        log.append((self.paths["structured"], n, copy.deepcopy(self.hyperparameters)))
        fail(self, "create")
        v = list(self.datapath.structured_data["v"])[0]
        self.features = pd.DataFrame({"f": [v * CODE[n]], "g": [v + len(str(sorted(self.hyperparameters.items(), key=str)))]}, dtype=object)
    for n, k in classes().items():
        orig = k.__init__

        def init(self, structured_datapath=None, hyperparameters=None, *a, _o=orig, **kw):
            _o(self, structured_datapath, hyperparameters, *a, **kw)
            if structured_datapath is not None:
                fail(self, "construct")
        def as_dict(self, _o=k.as_dict):
            first = not vars(self).get("_saved", False)
            self._saved = True
            if first and self.features is not None:
                fail(self, "save")                  # the first time it is to be written: as an intermediate
            return _o(self)
        out += [(k, "__init__", init), (k, "validate", validate), (k, "create_features", create), (k, "as_dict", as_dict)]
    return out


def structured(c, w, name, value):
    from beep.structure.arbin import ArbinDatapath
    dp = ArbinDatapath(pd.DataFrame({"cycle_index": [1, 2]}), {"barcode": "b", "protocol": "p", "channel_id": 1}, impute_missing=False)
    dp.structured_summary = pd.DataFrame({"cycle_index": [1]})
    dp.structured_data = pd.DataFrame({"cycle_index": [1, 1], "v": [value, 2.0]}, dtype=object)
    p = w.path(name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    dp.to_json_file(p, omit_raw=False)
    return p


NAMESAKES = [f"{x}/x_structured.json" for x in "abc"]
FILES = ["a/x_structured.json", "b/x_structured.json", "a/y_structured.json.gz"]


def defaults():
    return {n: copy.deepcopy(k.DEFAULT_HYPERPARAMETERS) for n, k in classes().items()}


def judge(c, w, files, loads, value, feats, plan, interm, out, code, before, base, stop=None, matrix=None):
    """the status, the matrix and the files against the plan; feats: [(class name, hyperparameters)]"""
    from beep.features.base import BEEPFeatureMatrix
    st = w.status_json()
    c.require("succeeds", code == 0)
    c.require("status written", st is not None)
    if code != 0 or st is None:
        return
    c.require("operation", st["op_type"] == "featurize")
    c.require("each file reported, nothing else", sorted(st["files"]) == sorted(files))
    good, paths, lost = [], [], 0
    for i, f in enumerate(files):
        e = st["files"].get(f)
        if e is None:
            continue
        c.require(f"file {i}: walltime", loads[i] is False or (isinstance(e["walltime"], numbers.Real) and e["walltime"] >= 0))
        if not loads[i]:
            c.require(f"file {i}: no featurizer claimed", not any(x.get("featurized") or x.get("valid") or x.get("output") for x in e["featurizers"]))
            c.require(f"file {i}: its failure is reported", "Traceback" in json.dumps(e))
            c.cover("unreadable")
            continue
        c.require(f"file {i}: checksum", e["processed_md5_chksum"] == md5(f))
        c.require(f"file {i}: each featurizer once, in order", [x["featurizer_name"] for x in e["featurizers"]] == [n for n, _ in feats])
        if len(e["featurizers"]) != len(feats):
            continue
        for j, (x, (n, hp)) in enumerate(zip(e["featurizers"], feats)):
            t = f"file {i} featurizer {j}"
            stage = plan(f, n, hp)
            c.require(f"{t}: hyperparameters", x["hyperparameters"] == hp)
            c.require(f"{t}: valid", x["valid"] is (stage in ("ok", "create", "save")))
            c.require(f"{t}: featurized", x["featurized"] is (stage in ("ok", "save")))
            c.require(f"{t}: walltime", isinstance(x["walltime"], numbers.Real) and x["walltime"] >= 0)
            if stage in ("ok", "save"):
                good.append((i, n, hp))
            if stage == "save":
                lost += 1
            if stage == "ok":
                c.require(f"{t}: no traceback", x["traceback"] is None)
            else:
                c.require(f"{t}: traceback", tb_ok(x["traceback"], f"planned {stage} failure of {n}"))
            if stage == "ok" and interm:
                p = x["output"]
                ok = isinstance(p, str) and os.path.dirname(p) == out and os.path.isfile(p)
                c.require(f"{t}: intermediate file written", ok)
                if ok:
                    paths.append(p)
                    c.require(f"{t}: checksum of the intermediate file", x["subop_md5_chksum"] == md5(p))
                    b = classes()[n].from_json_file(p)
                    c.require(f"{t}: the intermediate file holds its features",
                              all_of(type(b).__name__ == n, b.paths["structured"] == f, b.hyperparameters == hp,
                                     list(b.features["f"])[0] == value[i] * CODE[n]))
            else:
                c.require(f"{t}: no intermediate file", x["output"] is None and x["subop_md5_chksum"] is None)
    c.require("every intermediate file is its own", len(set(paths)) == len(paths))
    fm = st["feature_matrix"]
    new = w.files() - before - {w.status}
    if not good:
        c.require("no matrix without features", fm["created"] is False and fm["output"] is None and new == set(paths))
        c.require("the reason is reported", tb_ok(fm["traceback"], "Traceback"))
        c.cover("nothing")
        return
    p = fm["output"]
    c.require("matrix created", fm["created"] is True and fm["traceback"] is None and isinstance(p, str) and os.path.isfile(p))
    if not (isinstance(p, str) and os.path.isfile(p)):
        return
    c.require("matrix where it was asked for", p == matrix if matrix else os.path.dirname(p) == out)
    c.require("files written", new >= set(paths) | {p} and len(new) <= len(set(paths)) + 1 + lost)
    m = BEEPFeatureMatrix.from_json_file(p).matrix
    c.require("a row for each file with features", sorted(map(str, m.index)) == sorted({files[i] for i, _, _ in good}))
    kinds = []
    for _, n, hp in good:
        if (n, hp) not in kinds:
            kinds.append((n, hp))
    c.require("a column for each feature made", len(m.columns) == 2 * len(kinds))
    if sorted(map(str, m.index)) == sorted({files[i] for i, _, _ in good}):
        for n in {n for n, _ in kinds}:
            cols = [j for j, x in enumerate(m.columns) if x.startswith(f"f::{n}::") or x == f"f::{n}"]
            c.require(f"columns of {n}", len(cols) == len([1 for a, _ in kinds if a == n]))
            for i, f in enumerate(files):
                if f not in list(m.index):
                    continue
                row = m.iloc[list(m.index).index(f)]
                have = [row.iloc[j] for j in cols if not is_nan(row.iloc[j])]
                want = [1 for a, b, _ in good if a == i and b == n]
                c.require(f"{n} of file {i}: features made", len(have) == len(want))
                for v in have:
                    c.require(f"{n} of file {i}: value", close(v, value[i] * CODE[n], 1e-9))
    c.cover("matrix")


def faults(c):
    n, k = c.params["files"], c.params["feats"]
    with world(c) as w:
        value = [c.real(f"v{i}", 1, 2) for i in range(n)]
        loads = [c.choice(f"loads{i}", [True, False]) if c.params.get("loads", True) else True for i in range(n)]
        files = []
        FILES = NAMESAKES if c.params.get("namesakes") else globals()["FILES"]
        for i in range(n):
            p = structured(c, w, FILES[i], value[i])
            if not loads[i]:
                p = w.write(FILES[i], "this is not a structured run")
            files.append(p)
        dflt = defaults()
        feats = [(x, dflt[x]) for x in (["CycleSummaryStats", "TrajectoryFastCharge", "External"] if k < 4 else OWN)][:k]
        stage = {}
        for i in range(n):
            for j in range(k):
                stage[files[i], feats[j][0]] = c.choice(f"stage{i}_{j}", c.params["stages"]) if loads[i] else "ok"
        plan = lambda f, n, hp: stage[f, n]
        halt = c.choice("halt", [False, True]) if c.params["halt"] else False
        interm = c.choice("intermediates", [False, True] if c.params["interm"] is True else [True]) if c.params["interm"] else False
        out = w.dir("out")
        log = []
        before = w.files()
        args = ["featurize", "-d", out] + (["--save-intermediates"] if interm else [])
        for x, _ in feats:
            args += ["-f", x if x != "External" else "verif_external.External"]
        external()
        with stubs(featurizers(plan, log)):
            code, exc = run(w, args + files, halt=halt)
        bad = [(i, j) for i in range(n) for j in range(k) if not loads[i] or stage[files[i], feats[j][0]] != "ok"]
        if halt and bad:
            c.require("halts with an error", code != 0 and exc is not None)
            stop = bad[0] if loads[bad[0][0]] else (bad[0][0], -1)
            want = [(files[i], feats[j][0]) for i in range(n) for j in range(k) if (i, j) < stop]
            if loads[stop[0]] and stage[files[stop[0]], feats[stop[1]][0]] in ("create", "save"):
                want.append((files[stop[0]], feats[stop[1]][0]))
            c.require("nothing is attempted after the failure", [x[:2] for x in log] == want)
            c.cover("halted")
            return
        judge(c, w, files, loads, value, feats, plan, interm, out, code, before, None)
        if defaults() != dflt:
            c.require("the featurizers' defaults stay as they are", False)


def options(c):
    """which featurizers, with which hyperparameters, and where the files go"""
    with world(c) as w:
        value = [c.real("v0", 1, 2)]
        files = [structured(c, w, FILES[2 if c.choice("gz", [False, True]) else 0], value[0])]
        external()
        dflt = defaults()
        sel = c.choice("select", ["default", "all_features", "all_targets", "all+one", "one", "two", "external", "intracell", "targets+one"])
        names = {"default": OWN, "all_features": OWN, "all+one": OWN, "all_targets": TARGETS, "targets+one": TARGETS, "one": ["DeltaQFastCharge"],
                 "two": ["TrajectoryFastCharge", "CycleSummaryStats"], "external": ["External"], "intracell": ["IntracellCycles", "IntracellFeatures"]}[sel]
        args = {"default": [], "all_features": ["-f", "all_features"], "all+one": ["-f", "DeltaQFastCharge", "--featurize-with", "all_features"],
                "all_targets": ["--featurize-with", "all_targets"], "targets+one": ["-f", "CycleSummaryStats", "-f", "all_targets"],
                "one": ["-f", "DeltaQFastCharge"], "two": ["-f", "TrajectoryFastCharge", "-f", "CycleSummaryStats"],
                "external": ["-f", "verif_external.External"], "intracell": ["-f", "IntracellCycles", "-f", "IntracellFeatures"]}[sel]
        feats = [(x, dflt[x]) for x in names]
        hp = c.choice("hyperparameters", ["none", "partial", "full", "external", "two"])
        if hp in ("partial", "two"):
            args += ["-h", '{"CycleSummaryStats": {"cycle_comp_num": [11, 101]}}']
            feats.append(("CycleSummaryStats", dict(dflt["CycleSummaryStats"], cycle_comp_num=[11, 101])))
        if hp == "full":
            args += ["--featurize-with-hyperparams", '{"TrajectoryFastCharge": {"thresh_max_cap": 0.9, "thresh_min_cap": 0.7, "interval_cap": 0.1}}']
            feats.append(("TrajectoryFastCharge", dict(thresh_max_cap=0.9, thresh_min_cap=0.7, interval_cap=0.1)))
        if hp in ("external", "two"):
            args += ["-h", '{"verif_external.External": {"q": None}}']
            feats.append(("External", dict(p=1, q=None)))
        where = c.choice("where", ["cwd", "dir", "name", "both"])
        interm = c.choice("intermediates", [False, True])
        out = w.dir("out") if where in ("dir", "both") else w.cwd
        mx = w.path("m", "matrix.json.gz") if where in ("name", "both") else None
        w.dir("m")
        if where in ("dir", "both"):
            args += ["--output-dir", out]
        if mx:
            args += ["--output-filename", mx]
        if interm:
            args.append("--save-intermediates")
        rid = c.int("run_id", 0, 9999) if c.choice("has_run_id", [True, False]) else None
        plan = lambda f, n, h: "ok"
        log = []
        before = w.files()
        with stubs(featurizers(plan, log)):
            code, exc = run(w, ["featurize"] + args + files, run_id=rid, tags=["t"])
        judge(c, w, files, [True], value, feats, plan, interm, out, code, before, None, matrix=mx)
        st = w.status_json()
        if st:
            c.require("metadata", (st["metadata"]["run_id"] is None) if rid is None else st["metadata"]["run_id"] == rid)
            c.require("tags", list(st["metadata"]["tags"]) == ["t"])
        c.require("the featurizers' defaults stay as they are", defaults() == dflt)


BAD = [["-f", "Nope"], ["-f", "no_such_module.Thing"], ["-f", "verif_external.Missing"], ["-f", "verif_external.Other"],
       ["-h", "[1, 2]"], ["-h", '{"CycleSummaryStats": {}, "DeltaQFastCharge": {}}'], ["-h", "{}"], ["-h", '{"Nope": {}}'], ["-h", "not a literal("]]


def refused(c):
    """a wrong selection of featurizers is an error of the command"""
    external()
    with world(c) as w:
        f = structured(c, w, FILES[0], c.real("v", 1, 2))
        args = c.choice("args", BAD)
        first = c.choice("also_valid", [False, True])
        log = []
        before = w.files()
        with stubs(featurizers(lambda *a: "ok", log)):
            code, exc = run(w, ["featurize"] + (["-f", "DeltaQFastCharge"] if first else []) + args + [f], halt=c.choice("halt", [False, True]))
        c.require("not a success", code != 0)
        c.require("nothing is done", not log and w.files() == before)
        c.cover("reached")


def interrupted(c):
    with world(c) as w:
        value = [c.real(f"v{i}", 1, 2) for i in range(2)]
        files = [structured(c, w, FILES[i], value[i]) for i in range(2)]
        where = c.choice("where", ["construct", "validate", "create"])
        at = c.choice("at", [(0, "CycleSummaryStats"), (0, "TrajectoryFastCharge"), (1, "CycleSummaryStats")])
        log = []
        with stubs(featurizers(lambda f, n, h: "interrupt-" + where if (files.index(f), n) == at else "ok", log)):
            code, exc = run(w, ["featurize", "-f", "CycleSummaryStats", "-f", "TrajectoryFastCharge"] + files)
        c.require("an interrupted run is not a success", code != 0)
        order = [(f, n) for f in files for n in ("CycleSummaryStats", "TrajectoryFastCharge")]
        k = order.index((files[at[0]], at[1]))
        c.require("nothing is attempted afterwards", [x[:2] for x in log] == order[:k + (where == "create")])
        c.cover("reached")


def missing(c):
    """a file that is not there: refused at once, or a failed file like the others"""
    with world(c) as w:
        v = [c.real(f"v{i}", 1, 2) for i in range(2)]
        there = [c.choice(f"exists{i}", [True, False]) for i in range(2)]
        files = [structured(c, w, FILES[i], v[i]) if there[i] else w.path(FILES[i]) for i in range(2)]
        dflt = defaults()
        feats = [("CycleSummaryStats", dflt["CycleSummaryStats"])]
        plan = lambda *a: "ok"
        before = w.files()
        log = []
        with stubs(featurizers(plan, log)):
            code, exc = run(w, ["featurize", "-f", "CycleSummaryStats"] + files)
        if code != 0:
            c.require("refused only for a missing file", not all(there))
            c.require("before anything is done", w.files() == before)
        else:
            judge(c, w, files, there, v, feats, plan, False, w.cwd, code, before, None)
        c.cover("reached")


def harnesses(tier):
    deep = tier == "thorough"
    P = cli_patches
    F = lambda name, weight=5, **k: dict(name=name, fn=faults, params=dict(dict(halt=True, interm=False), **k), patches=P, weight=weight, max_paths=20000)
    H = [F("faults_save", files=1, feats=2, stages=["ok", "save", "create"], loads=False, interm="always"),
         F("faults_2x1", files=2, feats=1, stages=STAGES, interm=True),
         F("faults_1x2", files=1, feats=2, stages=STAGES, loads=False, interm=True),
         F("faults_3x1", files=3, feats=1, stages=["ok", "create"]),
         F("namesakes", files=3, feats=1, stages=["ok", "create"], loads=False, interm=True, namesakes=True),
         F("faults_2x2", files=2, feats=2, stages=["ok", "invalid", "create"] if deep else ["ok", "create"], interm=deep, halt=deep),
         F("faults_1x3", files=1, feats=3, stages=STAGES if deep else ["ok", "invalid"], loads=False),
         dict(name="options", fn=options, params={}, patches=P, weight=9, max_paths=20000),
         dict(name="refused", fn=refused, params={}, patches=P, weight=1),
         dict(name="interrupted", fn=interrupted, params={}, patches=P, weight=1),
         dict(name="missing", fn=missing, params={}, patches=P, weight=1)]
    return H
