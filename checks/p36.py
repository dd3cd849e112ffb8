"""P36: `beep inspect` shows what is in the file it is given, and changes nothing."""
import re
from .cli import *
from .p19 import featurizer
from .p24 import table as fmatrix, experiment, model_patches, recorded, CSS, TFC

BOUNDS = {"all": "structured runs (with and without raw data, of four cyclers, with and without diagnostics), features, feature matrices of 1-2 "
                 "featurizers, trained models of each kind, diagnostic configurations, raw files and files of no known kind; all table "
                 "values, parameters and coefficients symbolic; tables of 1-3 rows"}
OUTSIDE = "a JSON file that names a class which cannot be imported; how long tables and long texts are elided; the wording of the log; reading raw files itself (P10, P11)"
ASSUMPTIONS = ["a table's printed form is its header line and one line per row (pandas' display is wide enough)",
               "a raw file is read by its reader (a stand-in hands out the run)"]

NUM = re.compile(r"[-+]?\d+(?:\.\d*)?(?:e[-+]?\d+)?$")


def val(x):
    """the number a printed cell stands for"""
    x = x.strip().strip("',")
    v = cell(x)
    if v is not None:
        return v
    if x in ("NaN", "nan"):
        return float("nan")
    return float(x) if NUM.match(x) else None


def inspect(w, f):
    """(exit code, what it printed)"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), pd.option_context("display.width", 2000, "display.max_columns", 50, "display.max_colwidth", 500):
        code, e = run(w, ["inspect", f], status=False)
    return code, out.getvalue()


def frame_at(c, out, head, df):
    """the table printed below a heading is the given one"""
    ls = out.split("\n")
    at = [i for i, x in enumerate(ls) if x.strip() == head]
    c.require(f"{head}: shown once", len(at) == 1)
    if len(at) != 1:
        return
    cols, n = [str(x) for x in df.columns], len(df)
    body = ls[at[0] + 1:at[0] + 3 + n]
    c.require(f"{head}: columns", body[0].split() == cols)
    rows = body[1:]
    if df.index.name:
        rows = rows[1:]
    else:
        rows = rows[:n]
    ok = []
    for i, line in enumerate(rows):
        x = line.split()
        if len(x) != 1 + len(cols):
            c.require(f"{head}: row {i}", False)
            return
        ok.append(x[0] == str(df.index[i]))
        for k, y in zip(df.columns, x[1:]):
            want = df[k].iloc[i]
            got = val(y)
            ok.append(y == str(want) if isinstance(want, str) else got is not None and same_cell(got, want, 1e-3))
    c.require(f"{head}: values", all_of(ok) if ok else True)


def item(out, k, after=None):
    """the value printed for a dictionary key"""
    t = out if after is None else out[out.index(after):] if after in out else ""
    m = re.search(r"'%s': ([^,}\n]+)" % re.escape(k), t)
    return None if m is None else m.group(1)


def line(out, k):
    m = re.search(r"^\s*-? ?%s: ?(.*)$" % re.escape(k), out, re.M)
    return None if m is None else m.group(1)


def files_of(w):
    return {p: memfs._open(p, "rb").read() for p in w.files()}


KINDS = ["arbin.ArbinDatapath", "maccor.MaccorDatapath", "neware.NewareDatapath", "biologic.BiologicDatapath"]


def tables(c, dp, diag):
    v = [c.real(f"v{i}", 2, 4) for i in range(4)]
    dp.structured_summary = frame(c, {"cycle_index": [1, 2], "charge_capacity": v[:2]})
    dp.structured_data = frame(c, {"cycle_index": [1, 1, 2], "voltage": [v[2], float("nan"), v[3]]})
    if diag:
        dp.diagnostic_summary = frame(c, {"cycle_index": [3], "charge_capacity": [c.real("d0", 2, 4)]})
        dp.diagnostic_data = frame(c, {"cycle_index": [3, 3], "voltage": [c.real("d1", 2, 4), 3.0]})


def shown_run(c, out, f, dp, raw, schema=True):
    c.require("the file is named", f"BEEP Datapath: {f}" in out)
    for k in ("structured_summary", "structured_data", "diagnostic_summary", "diagnostic_data"):
        df = getattr(dp, k)
        if df is None:
            c.require(f"{k}: none", re.search(rf"^{k}:\n\s*No object\.", out, re.M) is not None)
        else:
            frame_at(c, out, k + ":", df)
    if raw:
        frame_at(c, out, "raw_data:", dp.raw_data)
    else:
        c.require("raw data: none", re.search(r"^raw_data:\n\s*No object\.", out, re.M) is not None)
    for k, v in dict(barcode="'bc7'", protocol="'pr.sdu'", channel_id="17").items():
        c.require(k, item(out, k, "File metadata") == v)


def run_file(c):
    """a structured run"""
    import importlib
    mod, cls = c.choice("cycler", KINDS).split(".")
    K = getattr(importlib.import_module("beep.structure." + mod), cls)
    with world(c) as w:
        f = w.path("x_structured.json" + c.choice("gz", ["", ".gz"]))
        raw, diag = c.choice("raw", [True, False]), c.choice("diagnostic", [True, False])
        dp = K(frame(c, {"cycle_index": [1, 2], "voltage": [c.real("r0", 2, 4), 3.25]}), {"barcode": "bc7", "protocol": "pr.sdu", "channel_id": 17,
               "more": "extra text"}, paths={"raw": "/d/raw.csv"}, schema=c.choice("schema", [None, "schema-arbin-lfp.yaml"]))
        tables(c, dp, diag)
        cap = c.real("nominal", 0, 10)
        dp.structuring_parameters = {"nominal_capacity": cap, "resolution": c.int("resolution", 2, 2000)}
        dp.to_json_file(f, omit_raw=not raw)
        before = files_of(w)
        code, out = inspect(w, f)
        c.require("succeeds", code == 0)
        shown_run(c, out, f, dp, raw)
        if raw:
            c.require("all metadata", "extra text" in out)
        for k, v in dp.structuring_parameters.items():
            g = item(out, k, "Structuring parameters")
            c.require(k, g is not None and close(val(g), v, 1e-6))
        c.require("paths", item(out, "raw", "File paths") == "'/d/raw.csv'")
        c.require("schema", line(out, "Validation schema") == str(dp.schema))
        c.require("identity", "barcode:bc7-channel:17-protocol:pr.sdu" in out)
        c.require("nothing changes", files_of(w) == before)
        c.cover("reached")


def raw_file(c):
    """a raw file is shown as the run it becomes; anything else is refused"""
    import beep.cmd as M
    with world(c) as w:
        name = c.choice("name", ["2017-05-09_x_CH33.csv", "PreDiag_000287_000128short.092", "x.json", "x.txt"])
        text = c.choice("text", ["a,b\n1,2\n", "{}", "[1, 2]", "{not json", "", '{"a": 1}'])
        f = w.write(name, text)
        good = c.choice("readable", [True, False])
        from beep.structure.arbin import ArbinDatapath
        dp = ArbinDatapath(frame(c, {"cycle_index": [1, 2], "voltage": [c.real("r0", 2, 4), 3.25]}), {"barcode": "bc7", "protocol": "pr.sdu",
                           "channel_id": 17}, paths={"raw": "/d/raw.csv"}, impute_missing=False)
        asked = []

        def load(p):
            asked.append(str(p))
            if not good:
                raise ValueError("not a raw file")
            return dp
        before = files_of(w)
        with stubs([(M, "auto_load", load)]):
            code, out = inspect(w, f)
        if name == "x.json" or not good:
            c.require("what is no file of beep's is refused", code != 0 and "BEEP" not in out)
            c.cover("refused")
        else:
            c.require("succeeds", code == 0)
            c.require("read once, from its path", asked == [f])
            shown_run(c, out, f, dp, True)
            c.cover("raw")
        c.require("nothing changes", files_of(w) == before)


def feature_file(c):
    import beep.features.core as F
    with world(c) as w:
        k = c.choice("featurizer", ["CycleSummaryStats", "DiagnosticProperties", "ChargingProtocol"])
        K = getattr(F, k)
        a, b = c.real("a", -5, 5), c.real("b", -5, 5)
        h = dict(copy_of(K.DEFAULT_HYPERPARAMETERS), threshold=c.real("threshold", 0, 1))
        z = featurizer(c, K, h, "/d/q_structure.json", {"first": a, "second": b})
        f = w.path("feats.json")
        z.to_json_file(f)
        before = files_of(w)
        code, out = inspect(w, f)
        c.require("succeeds", code == 0)
        c.require("the file is named", f"BEEP Featurizer: {f}" in out)
        frame_at(c, out, "Features:", z.features)
        g = item(out, "threshold", "Hyperparameters")
        c.require("hyperparameters", g is not None and close(val(g), h["threshold"], 1e-6) and all(repr(x) in out for x in h))
        c.require("paths", item(out, "structured", "File paths") == "'/d/q_structure.json'")
        c.require("the run it belongs to", line(out, "Linked datapath semiunique id") == str(z.linked_semiunique_id))
        c.require("nothing changes", files_of(w) == before)
        c.cover("reached")


def copy_of(x):
    import copy
    return copy.deepcopy(x)


def matrix_file(c):
    from beep.features.base import BEEPFeatureMatrix
    import beep.features.core as F
    with world(c) as w:
        n = c.choice("files", [1, 2])
        two = c.choice("featurizers", [1, 2]) == 2
        fs, ks = [], [F.CycleSummaryStats] + ([F.DiagnosticSummaryStats] if two else [])
        for i in range(n):
            for K in ks:
                h = dict(copy_of(K.DEFAULT_HYPERPARAMETERS), note=f"note {K.__name__}")
                fs.append(featurizer(c, K, h, f"/d/{'ab'[i]}.json", {"f0": c.real(f"x{i}{K.__name__}", -5, 5), "f1": 2.5}))
        m = BEEPFeatureMatrix(fs)
        f = w.path("matrix.json.gz")
        m.to_json_file(f)
        before = files_of(w)
        code, out = inspect(w, f)
        c.require("succeeds", code == 0)
        c.require("the file is named", f"BEEP Feature Matrix: {f}" in out)
        got = re.findall(r"^\s*Featurizer (\S+) (\S+)$", out, re.M)
        c.require("each featurizer in order", got == [(type(x).__module__, type(x).__name__) for x in fs])
        parts = re.split(r"^\s*Featurizer \S+ \S+$", out, flags=re.M)[1:]
        for x, t in zip(fs, parts):
            c.require("its paths and hyperparameters", item(t, "structured") == repr(x.paths["structured"]) and item(t, "note") == repr(x.hyperparameters["note"]))
        frame_at(c, out, "Matrix:", m.matrix)
        c.require("nothing changes", files_of(w) == before)
        c.cover("reached")


def model_file(c):
    p = c.params
    with world(c) as w:
        n, names, targets = 3, ["f0", "f1"][:p["features"]], ["t0", "t1"][:p["targets"]]
        paths = [f"/d/{x}_structure.json" for x in "abc"]
        fm = fmatrix(c, {k: [c.real(f"x{i}_{j}", -5, 5) if j == 1 else 1.0 + j * (i + 1) for j in range(n)] for i, k in enumerate(names)}, paths, CSS)
        tm = fmatrix(c, {k: [c.real(f"y{i}_{j}", -5, 5) if j == 0 else 0.5 + j + i for j in range(n)] for i, k in enumerate(targets)}, paths, TFC)
        th = {k: c.real(k, 0, 0.5) for k in ("train_feature_drop_nan_thresh", "train_sample_drop_nan_thresh", "predict_sample_nan_thresh")}
        imp = c.choice("impute", ["median", "mean"])
        homo = c.choice("homogenize", [True, False])
        nm = lambda k: k + TFC if homo else [x for x in tm.matrix.columns if x.startswith(k + "::")][0]
        e = experiment(c, fm, tm, [nm(t) for t in targets], p["model"], alphas=[0.5], impute_strategy=imp, homogenize_features=homo, **th)
        with recorded(c):
            e.train()
        multi = len(targets) > 1
        co = [[c.real(f"w{i}_{k}", 1, 2) for k in names] for i in range(len(targets))]
        b = [c.real(f"b{i}", 1, 2) for i in range(len(targets))]
        dt = object if c.symbolic else float
        e.model.coef_ = np.array(co if multi else co[0], dtype=dt)
        e.model.intercept_ = np.array(b, dtype=dt) if multi else np.array(b[0], dtype=dt) if c.symbolic else np.float64(b[0])
        f = w.path("model.json")
        e.to_json_file(f)
        before = files_of(w)
        code, out = inspect(w, f)
        c.require("succeeds", code == 0)
        c.require("the file is named", f"BEEP Linear Model Experiment: {f}" in out)
        c.require("targets", line(out, "Targets") == str([nm(t) for t in targets]))
        c.require("model", line(out, "Model name") == p["model"])
        c.require("imputation", line(out, "Impute strategy") == imp)
        c.require("homogenised", line(out, "Homogenize features") == str(homo))
        for k, v in th.items():
            g = line(out, k)
            c.require(k, g is not None and close(val(g), v, 1e-6))
        g = line(out, "coef_")
        got = [val(x) for x in re.sub(r"[\[\]]", "", g or "").split(",") if x.strip()]
        want = [x for r in co for x in r]
        c.require("coefficients", len(got) == len(want) and all_of([close(x, y, 1e-6) for x, y in zip(got, want)]))
        g = line(out, "intercept_")
        got = [val(x) for x in re.sub(r"[\[\]]", "", g or "").split(",") if x.strip()]
        c.require("intercepts", len(got) == len(b) and all_of([close(x, y, 1e-6) for x, y in zip(got, b)]))
        frame_at(c, out, "feature_matrix", fm.matrix)
        frame_at(c, out, "target_matrix", tm.matrix)
        c.require("nothing changes", files_of(w) == before)
        c.cover("reached")


def other_file(c):
    """an object of another kind is shown as its dictionary"""
    from beep.structure.diagnostic import DiagnosticConfig
    from monty.serialization import dumpfn
    with world(c) as w:
        v = c.int("v", 1, 900)
        f = w.path("diag.json")
        dumpfn(DiagnosticConfig({"rpt_a": [4], "hppc_b": [17]}, note="some note"), f)
        before = files_of(w)
        code, out = inspect(w, f)
        c.require("succeeds", code == 0)
        c.require("shown", all(x in out for x in ("DiagnosticConfig", "rpt_a", "hppc_b", "17", "some note")))
        c.require("nothing changes", files_of(w) == before)
        c.require("a file that is not there is an error", inspect(w, w.path("gone.json"))[0] != 0)
        c.cover("reached", v > 0)


def harnesses(tier):
    def pm():
        return cli_patches() + model_patches()
    H = [dict(name="run", fn=run_file, params={}, patches=cli_patches, weight=3), dict(name="raw", fn=raw_file, params={}, patches=cli_patches, weight=3),
         dict(name="features", fn=feature_file, params={}, patches=cli_patches), dict(name="matrix", fn=matrix_file, params={}, patches=cli_patches),
         dict(name="other", fn=other_file, params={}, patches=cli_patches)]
    H += [dict(name=f"model_{m}_{t}", fn=model_file, params=dict(model=m, targets=t, features=k), patches=pm, weight=2)
          for m, t, k in (("lasso", 1, 2), ("ridge", 1, 1), ("elasticnet", 2, 2))]
    return H
