"""P25: `beep structure` does to each file what it reports, one file's failure leaves the others alone."""
import numbers
from .cli import *

BOUNDS = {"all": "1-3 input files of different cyclers, each of which may fail at loading, validating, structuring or writing (as an "
                 "ordinary or a system-exit exception), be invalid, or be interrupted from the keyboard; with and without "
                 "--halt-on-error, --validation-only, --automatic, --no-raw; every numeric option and the structured values symbolic; "
                 "the three ways of naming outputs, inputs that share a name; up to 3 local files, S3 keys and patterns in any order"}
OUTSIDE = ("what the readers, the validator and the structuring do with the content of a file (other properties); the wording of the "
           "log; the same input given twice; failures of the file system itself while the status is written")
ASSUMPTIONS = ["a file's reader, validation, structuring and serialisation succeed or fail as the fault schedule says (stubs), the rest of "
               "the command, click's option parsing included, is the real code"]

NAMES = [("a/2017-05-09_x_CH33.csv", "arbin.ArbinDatapath"), ("a/PreDiag_000287_000128short.092", "maccor.MaccorDatapath"),
         ("b/neware.v2_test.csv", "neware.NewareDatapath"), ("b/some_run_C02.txt", "biologic.BiologicDatapath")]
MORE = [("b/run_FastCharge_1.csv", "arbin.ArbinDatapath"), ("b/run_xTESLADIAG_3.csv", "maccor.MaccorDatapath"),
        ("b/cell.h5", "indigo.IndigoDatapath"), ("b/SNL_LFP_timeseries.csv", "battery_archive.BatteryArchiveDatapath")]
STAGES = ["ok", "load", "validate", "invalid", "structure", "write"]


def readers(plan, log):
    """stubs of the readers: each returns a real datapath whose steps follow the plan of its file"""
    import importlib
    from beep.structure.base import BEEPDatapath
    out = []

    def fail(f, stage):
        p = plan[f]
        if p["stage"] == stage:
            raise p["error"](f"planned {stage} failure of {os.path.basename(f)}")
        if p["stage"] == "interrupt-" + stage:
            raise KeyboardInterrupt()

    for mod, cls in sorted({tuple(x.split(".")) for _, x in NAMES + MORE}):
        K = getattr(importlib.import_module("beep.structure." + mod), cls)

        def from_file(kls, path, *a, _n=f"{mod}.{cls}", **k):
            path = str(path)
            log.append(("read", path, _n))
            fail(path, "load")
            dp = kls(pd.DataFrame({"cycle_index": [1, 2], "voltage": [3.0, plan[path]["value"]]}, dtype=object),
                     {"barcode": "b", "protocol": "p", "channel_id": 1}, paths={"raw": path}, schema=None, impute_missing=False)
            return dp
        out.append((K, "from_file", classmethod(from_file)))

    def path_of(dp):
        return dp.paths["raw"]

    def validate(self):
        f = path_of(self)
        log.append(("validate", f))
        fail(f, "validate")
        return (False, "planned reason") if plan[f]["stage"] == "invalid" else (True, "")

    def filled(self, how, args):
        f = path_of(self)
        log.append((how, f, args))
        fail(f, "structure")
        self.structured_summary = pd.DataFrame({"cycle_index": [1], "x": [plan[f]["value"]]}, dtype=object)
        self.structured_data = pd.DataFrame({"cycle_index": [1, 1], "v": [plan[f]["value"], 2.0]}, dtype=object)
        self.structuring_parameters = {"how": how, "value": plan[f]["value"]}

    names = ("v_range", "resolution", "nominal_capacity", "full_fast_charge", "diagnostic", "charge_axis", "discharge_axis")

    def structure(self, *a, **k):
        filled(self, "structure", dict(zip(names, a), **k))

    def autostructure(self, *a, **k):
        filled(self, "autostructure", dict(zip(("charge_axis", "discharge_axis", "parameters_path"), a), **k))
    tojson = BEEPDatapath.to_json_file

    def to_json_file(self, filename, omit_raw=True):
        f = path_of(self)
        log.append(("write", f, str(filename), omit_raw))
        if plan[f]["stage"] == "write":
            with memfs._open(filename, "w") as o:
                o.write("{")                     # a write that fails half way
        fail(f, "write")
        tojson(self, filename, omit_raw=omit_raw)

    out += [(BEEPDatapath, "validate", validate), (BEEPDatapath, "structure", structure),
            (BEEPDatapath, "autostructure", autostructure), (BEEPDatapath, "to_json_file", to_json_file)]
    return out


def check_entry(c, tag, e, f, p, output, validation_only=False):
    stage = p["stage"]
    c.require(f"{tag}: checksum of the input", e["raw_md5_chksum"] == md5(f))
    c.require(f"{tag}: validated", e["validated"] is (stage in ("ok", "structure", "write")
                                                      or (validation_only and stage in ("structure", "write"))))
    done = stage == "ok" and not validation_only
    fine = stage == "ok" or (validation_only and stage in ("structure", "write"))
    c.require(f"{tag}: structured", e["structured"] is done)
    c.require(f"{tag}: output", e["output"] == (output if done else None))
    c.require(f"{tag}: walltime", isinstance(e["walltime"], numbers.Real) and e["walltime"] >= 0)
    if fine:
        c.require(f"{tag}: no traceback", e["traceback"] is None)
    else:
        c.require(f"{tag}: traceback names the reason", tb_ok(e["traceback"], "planned reason" if stage == "invalid" else f"planned {stage} failure"))
    if done:
        c.require(f"{tag}: output written", os.path.isfile(output))
        if os.path.isfile(output):
            c.require(f"{tag}: checksum of the output", e["processed_md5_chksum"] == md5(output))
            c.require(f"{tag}: the file's own data", same_data(output, p["value"]))
        sp = e["structuring_parameters"]
        c.require(f"{tag}: structuring parameters", isinstance(sp, dict) and set(sp) == {"how", "value"} and sp["value"] == p["value"])
    else:
        c.require(f"{tag}: no checksum or parameters of an output", e["processed_md5_chksum"] is None and not e["structuring_parameters"])


def same_data(output, value):
    from beep.structure.cli import auto_load_processed
    d = auto_load_processed(output)
    return all_of(list(d.structured_data["v"])[0] == value, list(d.structured_summary["x"])[0] == value,
                  d.paths["structured"] == output)


def faults(c):
    n = c.params["n"]
    with world(c) as w:
        plan, files = {}, []
        err = c.choice("error", FAULTS[:c.params["errors"]])
        for i in range(n):
            f = w.write(NAMES[i][0], f"content {i}")
            files.append(f)
            plan[f] = dict(stage=c.choice(f"stage{i}", c.params["stages"]), error=err, value=c.real(f"v{i}", 2, 4))
        halt = c.choice("halt", [False, True])
        vonly = c.choice("validation_only", [False, True])
        log = []
        before = w.files()
        out = w.dir("out")
        outputs = [os.path.join(out, s + "_structured.json.gz") for s in
                   ("2017-05-09_x_CH33", "PreDiag_000287_000128short", "neware.v2_test")][:n]
        with stubs(readers(plan, log)):
            code, exc = run(w, ["structure", "-d", out] + (["--validation-only"] if vonly else []) + files, halt=halt)
            ok = ("ok", "structure", "write") if vonly else ("ok",)
            bad = [i for i in range(n) if plan[files[i]]["stage"] not in ok]
            stop = bad[0] if halt and bad else n
            reached = files[:stop + 1]
            c.require("files read in order, each once, by its own reader",
                      [x[1:] for x in log if x[0] == "read"] == [(f, NAMES[i][1]) for i, f in enumerate(reached)])
            st = w.status_json()
            if stop < n:
                c.require("halts with an error", code != 0 and exc is not None)
                c.cover("halted")
            else:
                c.require("finishes in spite of failing files", code == 0)
                c.require("status written", st is not None)
            if st is not None:
                c.require("operation", st["op_type"] == "structure")
                c.require("each file reported, nothing else", sorted(st["files"]) == sorted(reached if stop < n else files))
                for i, f in enumerate(reached):
                    if f in st["files"] and i != stop:
                        check_entry(c, f"file {i}", st["files"][f], f, plan[f], outputs[i], vonly)
            new = w.files() - before - {w.status}
            want = {o for i, o in enumerate(outputs) if i < stop and plan[files[i]]["stage"] == "ok" and not vonly}
            partial = {o for i, o in enumerate(outputs) if i <= stop and plan[files[i]]["stage"] == "write"}
            c.require("outputs of the structured files only", new - partial == want)
            for i, o in enumerate(outputs):
                if o in want and os.path.isfile(o):
                    c.require(f"output {i} holds its file", same_data(o, plan[files[i]]["value"]))
        for i, f in enumerate(files):
            c.require(f"input {i} untouched", memfs._open(f).read() == f"content {i}")
        c.cover("reached")


def interrupted(c):
    """Ctrl-C ends the command as a failure, and at once"""
    with world(c) as w:
        plan, files = {}, []
        where = c.choice("where", ["load", "validate", "structure", "write"])
        which = c.choice("which", [0, 1])
        halt = c.choice("halt", [False, True])
        for i in range(3):
            f = w.write(NAMES[i][0], f"content {i}")
            files.append(f)
            plan[f] = dict(stage="interrupt-" + where if i == which else "ok", error=ValueError, value=c.real(f"v{i}", 2, 4))
        log = []
        with stubs(readers(plan, log)):
            code, exc = run(w, ["structure"] + files, halt=halt)
        c.require("an interrupted run is not a success", code != 0)
        c.require("no later file is read", [x[1] for x in log if x[0] == "read"] == files[:which + 1])
        c.cover("reached")


def options(c):
    """the options reach the structuring, the output and the status"""
    with world(c) as w:
        f = w.write(NAMES[c.choice("file", [0, 1, 2, 3])][0], "content")
        v = c.real("value", 2, 4)
        plan = {f: dict(stage="ok", error=ValueError, value=v)}
        auto, raw = c.choice("automatic", [False, True]), c.choice("no_raw", [False, True])
        pdir = w.dir("params")
        have_dir = c.choice("parameters_dir", [True, False])
        given = c.choice("given", ["none", "all", "v_range", "resolution", "capacity", "axes"])
        want = dict(v_range=None, resolution=1000, nominal_capacity=1.1, full_fast_charge=0.8, charge_axis="charge_capacity",
                    discharge_axis="voltage")
        args = []
        if given in ("all", "v_range"):
            lo, hi = c.real("lo", 0, 5), c.real("hi", 0, 5)
            want["v_range"] = (lo, hi)
            args += [c.choice("opt_v", ["-v", "--v-range"]), txt(lo), txt(hi)]
        if given in ("all", "resolution"):
            want["resolution"] = c.int("resolution", 2, 5000)
            args += [c.choice("opt_r", ["-r", "--resolution"]), txt(want["resolution"])]
        if given in ("all", "capacity"):
            want["nominal_capacity"], want["full_fast_charge"] = c.real("cap", 0, 10), c.real("ffc", 0, 1)
            args += ["--nominal-capacity", txt(want["nominal_capacity"]), "--full-fast-charge", txt(want["full_fast_charge"])]
        if given in ("all", "axes"):
            want["charge_axis"], want["discharge_axis"] = "voltage", "discharge_capacity"
            args += ["--charge-axis", "voltage", "--discharge-axis", "discharge_capacity"]
        if auto:
            args.append("--automatic")
        if have_dir:
            args += ["--protocol-parameters-dir", pdir]
        if raw:
            args.append("--no-raw")
        tags = c.choice("tags", [[], ["one"], ["one", "two"]]) if given == "none" else []
        rid = c.int("run_id", 0, 9999) if c.choice("has_run_id", [True, False]) else None
        with_status = c.choice("status", [True, False]) if given == "none" else True
        log = []
        before = w.files()
        with stubs(readers(plan, log)):
            code, exc = run(w, ["structure"] + args + [f], run_id=rid, tags=tags, status=with_status)
        c.require("succeeds", code == 0)
        calls = [x for x in log if x[0] in ("structure", "autostructure")]
        c.require("structured once, as asked", len(calls) == 1 and calls[0][0] == ("autostructure" if auto else "structure"))
        if len(calls) == 1:
            got = calls[0][2]
            if auto:
                c.require("axes", got.get("charge_axis", "charge_capacity") == want["charge_axis"]
                          and got.get("discharge_axis", "voltage") == want["discharge_axis"])
                if have_dir:
                    c.require("parameter directory", got.get("parameters_path") == pdir)
            else:
                for k, x in want.items():
                    g = got.get(k)
                    if x is None:
                        c.require(k, g is None)
                    elif k == "v_range":
                        c.require(k, all_of(g is not None, len(g) == 2, g[0] == x[0], g[1] == x[1]) if g is not None else False)
                    else:
                        c.require(k, k in got and g == x)
        wr = [x for x in log if x[0] == "write"]
        out = os.path.join(w.cwd, os.path.splitext(os.path.basename(f))[0] + "_structured.json.gz")
        c.require("written once, next to the caller, with the raw data unless told otherwise",
                  len(wr) == 1 and wr[0][2] == out and bool(wr[0][3]) is raw)
        c.require("files written", w.files() - before == {out} | ({w.status} if with_status else set()))
        if with_status:
            st = w.status_json()
            m = st["metadata"]
            c.require("run id", (m["run_id"] is None) if rid is None else m["run_id"] == rid)
            c.require("tags", list(m["tags"]) == tags)
            import beep
            c.require("version", beep.__version__ in m.values())
            check_entry(c, "file", st["files"][f], f, plan[f], out)
        c.cover("automatic" if auto else "manual")


COLLIDE = [["a/x_CH1.csv", "b/x_CH1.csv"], ["a/P_000287_000128.092", "a/P_000287_000128.093"], ["a/x_CH1.csv", "b/x_CH2.csv"],
           ["a/x_CH1.csv", "b/y_000287_000128.092", "b/x_CH1.csv"]]


def naming(c):
    """every structured file has an output of its own, named as asked"""
    with world(c) as w:
        names = c.choice("inputs", COLLIDE)
        files = [w.write(x, f"content {i}") for i, x in enumerate(names)]
        plan = {f: dict(stage="ok", error=ValueError, value=c.real(f"v{i}", 2, 4)) for i, f in enumerate(files)}
        how = c.choice("naming", ["cwd", "dir", "names", "both", "few", "many", "same"])
        n = len(files)
        out = w.dir("out")
        own = [w.path("out", f"o{n - i}.json") for i in range(n)]
        auto = [os.path.splitext(os.path.basename(f))[0] + "_structured.json.gz" for f in files]
        given = {"names": own, "both": own, "few": own[:-1], "many": own + [w.path("out", "z.json")], "same": [own[0]] * n}.get(how, [])
        args = [y for x in given for y in ("-o", x)] + (["--output-dir", out] if how in ("dir", "both") else [])
        want = own if how == "names" else [os.path.join(out if how in ("dir", "both") else w.cwd, x) for x in auto]
        log = []
        before = w.files()
        with stubs(readers(plan, log)):
            code, exc = run(w, ["structure"] + args + files)
        new = w.files() - before - {w.status}
        if how in ("few", "many", "same"):
            c.require("wrong list of names is refused", code != 0)
            c.require("refused before anything is done", not log and not new)
            c.cover("refused")
            return
        clash = how != "names" and len(set(auto)) < n
        if clash:
            st = w.status_json()
            if code == 0:                       # either refuse, or give each an output of its own
                want = [st["files"][f]["output"] for f in files]
                c.require("different outputs", None not in want and len(set(want)) == n)
            else:
                c.require("refused before anything is written", not new)
                c.cover("clash refused")
                return
        else:
            c.require("succeeds", code == 0)
        c.require("outputs", new == set(want))
        for i, f in enumerate(files):
            if want[i] in new:
                c.require(f"output {i} holds its file", same_data(want[i], plan[f]["value"]))
        if w.status_json():
            for i, f in enumerate(files):
                check_entry(c, f"file {i}", w.status_json()["files"][f], f, plan[f], want[i])
        c.cover("named")


def automatic(c):
    """--automatic structures with what the protocol parameters say: whatever the method behind it is called, it is there"""
    with world(c) as w:
        f = w.write(NAMES[c.choice("file", [0, 1])][0], "content")
        v = c.real("value", 2, 4)
        log = []
        pats = [x for x in readers({f: dict(stage="ok", error=ValueError, value=v)}, log) if x[1] != "autostructure"]
        with stubs(pats):
            run(w, ["structure", "--automatic", "--protocol-parameters-dir", w.dir("params"), f])
        e = w.status_json()["files"][f]
        c.require("the structuring is there", "AttributeError" not in "".join(e["traceback"] or []))
        c.cover("reached")


def known_harnesses():
    return [dict(name="automatic", fn=automatic, params={})]


def missing(c):
    with world(c) as w:
        n = 3
        there = [c.choice(f"exists{i}", [True, False]) for i in range(n)]
        files = [w.write(NAMES[i][0], f"content {i}") if there[i] else w.path(NAMES[i][0]) for i in range(n)]
        plan = {f: dict(stage="ok", error=ValueError, value=c.real(f"v{i}", 2, 4)) for i, f in enumerate(files)}
        rel = c.choice("relative", [False, True])
        log = []
        before = w.files()
        with stubs(readers(plan, log)):
            code, exc = run(w, ["structure"] + [os.path.relpath(f, w.cwd) if rel else f for f in files])
        if all(there):
            c.require("succeeds", code == 0)
            c.require("reported by absolute path", sorted(w.status_json()["files"]) == sorted(files))
            c.cover("all there")
        else:
            c.require("a missing file is an error of the command", code != 0)
            c.require("raised before anything is done", not log and w.files() == before)
            c.cover("missing")


def s3_clash(c):
    """objects that only differ in their prefix are not mistaken for each other"""
    import beep.cmd as M
    with world(c) as w:
        args = c.choice("args", [["x_CH1.csv", "q/x_CH1.csv"], ["q/x_CH1.csv", "k/x_CH1.csv"], ["*/x_CH1.csv"]])
        local = c.choice("local", [False, True])
        if local:
            w.write("cwd/x_CH1.csv", "local")
        log, fetched = [], []

        def get(bucket, key, dest):
            fetched.append(key)
            with memfs._open(dest, "w") as f:
                f.write("remote " + key)
        f = w.path("cwd", "x_CH1.csv")
        with stubs(readers({f: dict(stage="ok", error=ValueError, value=c.real("v", 2, 4))}, log)
                   + [(M, "list_s3_objects", lambda b: [Obj(k) for k in ["x_CH1.csv", "q/x_CH1.csv", "k/x_CH1.csv"]]), (M, "download_s3_object", get)]):
            code, exc = run(w, ["structure", "--s3-bucket", "bucket"] + args)
        c.require("refused, or one file for each object", code != 0)
        c.require("nothing was fetched over another", not fetched)
        if local:
            c.require("local files are never overwritten", memfs._open(f).read() == "local")
        c.cover("reached")


class Obj:
    def __init__(self, key):
        self.key = key


ARGS = ["x_CH1.csv", "k/y_CH2.csv", "k/*_CH3.csv", "x_CH4.csv"]
KEYS = ["x_CH1.csv", "k/y_CH2.csv", "k/a_CH3.csv", "k/b_CH3.csv", "q/x_CH1.csv"]


def s3(c):
    """files from S3: local files come first, the order is the caller's, nothing local is overwritten"""
    import beep.cmd as M
    import itertools
    with world(c) as w:
        keys = [k for i, k in enumerate(KEYS[:c.params["keys"]]) if c.choice(f"key{i}", [True, False])]
        keys = ["q/c_CH3.csv", "c_CH3.csv"] + keys + ["k/d_CH3.csv.bak"]      # not matched by any argument
        local = c.choice("local", [[], ["x_CH1.csv"], ["x_CH4.csv"], ["x_CH1.csv", "x_CH4.csv"]])
        args = c.choice("args", [list(p) for k in (1, 2, 3) for p in itertools.permutations(ARGS, k)][:c.params["perms"]]
                        if c.params["perms"] < 99 else [list(p) for p in itertools.permutations(ARGS, 3)])
        cache = c.choice("cache", [False, True])
        for x in local:
            w.write("cwd/" + x, "local " + x)
        log, fetched = [], []
        where = w.path("s3cache") if cache else w.cwd

        def get(bucket, key, dest):
            fetched.append((bucket, key, dest))
            with memfs._open(dest, "w") as f:
                f.write("remote " + key)
        want = []                                  # (kind, name or key)
        for a in args:
            if a in local:
                want.append(("local", a))
            elif "*" in a:
                m = [("s3", k) for k in keys if k.startswith("k/") and k.endswith("_CH3.csv")]
                want += m or [("none", a)]
            else:
                want.append(("s3", a) if a in keys else ("none", a))
        paths = [os.path.join(w.cwd, a) if k == "local" else os.path.join(where, os.path.basename(a)) for k, a in want]
        plan = {p: dict(stage="ok", error=ValueError, value=c.real(f"v{i}", 2, 4)) for i, p in enumerate(paths)}
        own = [w.path("out", f"o{i}.json") for i in range(len(want))]
        w.dir("out")
        # two local names for one file cannot happen with these names unless the cache is the working directory
        with stubs(readers(plan, log) + [(M, "list_s3_objects", lambda b: [Obj(k) for k in keys]), (M, "download_s3_object", get),
                                         (M, "S3_CACHE", w.path("s3cache"))]):
            code, exc = run(w, ["structure", "--s3-bucket", "bucket"] + (["--s3-use-cache"] if cache else [])
                            + [y for x in own for y in ("-o", x)] + args)
        for x in local:
            c.require("local files are never overwritten", memfs._open(w.path("cwd", x)).read() == "local " + x)
        if any(k == "none" for k, _ in want):
            c.require("unknown files are an error of the command", code != 0 and not [x for x in log if x[0] == "read"])
            c.cover("unknown")
            return
        c.require("succeeds", code == 0)
        c.require("fetched what is not here, once each, from the bucket",
                  sorted(fetched) == sorted(("bucket", a, p) for (k, a), p in zip(want, paths) if k == "s3"))
        st = w.status_json()
        if code == 0:
            c.require("every match is processed", sorted(st["files"]) == sorted(paths))
            for i, p in enumerate(paths):
                if p in st["files"]:
                    c.require(f"output names follow the order of the inputs: {i}", st["files"][p]["output"] == own[i])
        c.cover("fetched")


def dispatch(c):
    """a file's reader follows from its name alone, whatever directory it is in"""
    from beep.structure.cli import auto_load
    with world(c) as w:
        d = c.choice("directory", ["plain", "CHRIS", "neware_project", "2020_CHARGE.csv", "run_123456_C", "FastCharge.csv", "x_timeseries.csv"])
        name, want = c.choice("name", [(os.path.basename(a), b) for a, b in NAMES + MORE] + [("other.dat", None)])
        f = w.write(os.path.join(d, name), "content")
        plan = {f: dict(stage="ok", error=ValueError, value=c.real("v", 2, 4))}
        log = []
        with stubs(readers(plan, log)):
            r, dp = raises(ValueError, lambda: auto_load(f))
        c.require("unknown names are refused", r == (want is None))
        if want and not r:
            c.require("reader of its name", [x[2] for x in log] == [want])
            c.require("data", list(dp.raw_data["voltage"])[1] == plan[f]["value"])
        c.cover("reached")


def harnesses(tier):
    deep = tier == "thorough"
    P = cli_patches
    H = [dict(name="faults_2", fn=faults, params=dict(n=2, stages=STAGES, errors=4 if deep else 2), patches=P, weight=4, max_paths=6000),
         dict(name="faults_3", fn=faults, params=dict(n=3, stages=STAGES if deep else ["ok", "load", "write"], errors=1), patches=P, weight=5, max_paths=6000),
         dict(name="interrupted", fn=interrupted, params={}, patches=P, weight=2),
         dict(name="options", fn=options, params={}, patches=P, weight=5, max_paths=6000),
         dict(name="naming", fn=naming, params={}, patches=P, weight=2),
         dict(name="missing", fn=missing, params={}, patches=P, weight=1),
         dict(name="s3", fn=s3, params=dict(keys=5 if deep else 4, perms=99), patches=P, weight=6, max_paths=20000),
         dict(name="s3_clash", fn=s3_clash, params={}, patches=P, weight=1),
         dict(name="dispatch", fn=dispatch, params={}, patches=P, weight=1)]
    return H
