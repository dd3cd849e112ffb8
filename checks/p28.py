"""P28: each row of a protocol csv becomes its own protocol file, with its own parameters; every other row is reported."""
import numbers
import warnings
from .cli import *
from .proc import *
from .p14 import steps_of, T
from .p15 import FORMATION, NOMINAL, template as settings_template, formation_expect, check_formation

BOUNDS = {"all": "csv files of 1-3 rows of every supported template and of unsupported ones, in any order; up to six symbolic parameters per "
                 "row, the diagnostic set chosen by name; rows that share project and number; existing and new output directories; "
                 "the command line with and without --halt-on-error, failures and interrupts"}
OUTSIDE = ("rows whose parameters the builders refuse (P14, P15); the waveforms themselves (P29); csv files without an output directory (they "
           "write into the package); two runs within a minute")
ASSUMPTIONS = ["a driving profile is a short stand-in file, the rapid charging wave a stand-in result (P29)",
               "biologic settings are written as utf-8 in symbolic runs"]

KINDS = {"exp": ("EXP.000", "name"), "v2": ("diagnosticV2.000", "PredictionDiagnostics"), "v3": ("diagnosticV3.000", "PreDiag"),
         "v4": ("diagnosticV4.000", "PreDiag"), "drive": ("drivingV1.000", "Drive"), "rapid": ("diagnosticV4.000", "RapidC"),
         "formation": ("formationV1.mps", "Form"), "unknown": ("EXP-SOH.000", "name"), "sdu": ("fast.sdu", "name"),
         "other mps": ("formationV2.mps", "Form"), "text": ("notes.txt", "name"), "drive5": ("diagnosticV5.000", "Drive")}
GOOD = ["exp", "v2", "v3", "v4", "drive", "rapid", "formation", "drive5"]


def diag_sets():
    from beep.protocol import PROCEDURE_TEMPLATE_DIR as D
    df = pd.read_csv(os.path.join(D, "PreDiag_parameters - DP.csv"))
    return {r["diagnostic_parameter_set"]: r.to_dict() for _, r in df.iterrows()}


def parameters(c, i, kind, sets):
    t, project = KINDS[kind]
    P = {"project_name": project, "seq_num": 7 + 193 * i, "template": t, "diagnostic_parameter_set": sets[(4 * i + 1) % len(sets)],
         "cutoff_voltage": 4.0 + 0.05 * i, "charge_rate": 1.5 + i, "discharge_rate": 2.5 + i,
         "charge_constant_current_1": 0.9 + 0.1 * i, "charge_percent_limit_1": 40 + i, "charge_constant_current_2": 2.1 + 0.1 * i,
         "charge_cutoff_voltage": 4.15 + 0.01 * i, "charge_constant_voltage_time": 30 + i, "charge_rest_time": 5 + i,
         "discharge_constant_current": 0.5 + 0.1 * i, "discharge_cutoff_voltage": 2.7 + 0.01 * i, "discharge_rest_time": 15 + i,
         "cell_temperature_nominal": 25, "capacity_nominal": 4.84 + i, "diagnostic_start_cycle": 30 + i, "diagnostic_interval": 100 + i,
         "discharge_profile": "US06", "n_repeats": 1 + i, "max_profile_power": 32 + i, "power_scaling": 1.0, "profile_charge_limit": 4.0,
         "charge_type_1": "step", "charge_start_soc": 0.05, "charge_soc_param_1": 0.25, "charge_soc_param_2": 0.6, "charge_fast_soc_limit": 0.8,
         "charge_current_param_1": 1.0, "charge_current_param_2": 1.5, "charge_current_param_3": 1.25, "charge_current_param_4": 0.75 + 0.1 * i,
         "charge_voltage_offset_1": 0.05}
    for j, (_, _, k, rate) in enumerate(FORMATION):
        P.setdefault(k, 0.1 + 0.01 * j + i if rate else 3 + 0.01 * j if "voltage" in k else 10 + j + i)
    P.setdefault("mid_cycle_reps", 4 + i)

    def sym(k, lo, hi):
        P[k] = c.real(f"{k}_{i}", lo, hi)
    if kind == "exp":
        sym("cutoff_voltage", 3, 5), sym("charge_rate", 0.1, 5), sym("discharge_rate", 0.1, 5)
    elif kind == "formation":
        sym(NOMINAL, 0.05, 10)
        for k in ("initial_charge_current_1", "initial_charge_voltage_2", "final_discharge_voltage_1"):
            if k in P:
                sym(k, 1, 5)
    elif kind in GOOD:
        sym("capacity_nominal", 0.5, 10), sym("discharge_constant_current", 0.1, 5)
        sym("charge_cutoff_voltage", 4.1, 5), sym("diagnostic_start_cycle", 1, 500)
        if kind in ("v2", "v3", "v4"):
            sym("charge_constant_current_1", 0.1, 5)
    return P


def expected(c, kind, P, i, D, name):
    """(template, entries) of the procedure of row number i"""
    x = Expect()
    if kind == "exp":
        t = T("EXP.000")
        s = steps_of(t)
        a, b = [j for j, z in enumerate(s) if z["StepType"] == "Do 1"][0], [j for j, z in enumerate(s) if z["StepType"] == "Loop 1"][0]
        for j, z in enumerate(s):
            if z["StepType"] == "Charge" and z["Limits"] is not None and "Voltage" in z["Limits"]:
                x.limit(j, "Voltage", P["cutoff_voltage"], 1e-9)
            if z["StepMode"] == "Current" and a < j < b:
                if z["StepType"] == "Charge":
                    x.val(j, P["charge_rate"], 1e-9)
                if z["StepType"] == "Dischrge":
                    x.val(j, P["discharge_rate"], 1e-9)
        return t, x
    cap = P["capacity_nominal"]
    if kind != "v2":
        x.time(0, 0, 3 * 3600 + 720 * (i % 96))
    x.val(1, cap)
    for b, count in ((28, "diagnostic_start_cycle"), (60, "diagnostic_interval")):
        if kind == "rapid":
            exp_charge(x, b, dict(P, charge_constant_current_1=1, charge_constant_current_2=P["charge_current_param_4"],
                                  charge_percent_limit_1=P["charge_fast_soc_limit"]), True)
            for k in [k for k in x.want if k[:2] == ("TestStep", b)]:
                del x.want[k]
            exp_wave(x, b, name)
            exp_discharge(x, b + 4, P)
        else:
            exp_charge(x, b, P, kind != "v2")
            if kind.startswith("drive"):
                exp_wave(x, b + 4, name)
            else:
                exp_discharge(x, b + 4, P)
        exp_loop(x, b + 4, P, count)
    exp_storage(x, 69 if kind == "v2" else 93, P, kind != "v2")
    for a, b, e in [(4, 8, 18), (37, 40, 50)] + ([] if kind == "v2" else [(70, 74, 84)]):
        exp_reset(x, a, cap, D)
        exp_hppc(x, b, cap, D)
        exp_rpt(x, e, cap, D)
    for k, (a, v, t) in list(x.want.items()):
        if a == "text" and v == "":
            x.want[k] = (a, None, t)                    # an empty entry reads back as none
    return T(KINDS[kind][0]), x


def reads(f):
    from beep.protocol.maccor import Procedure
    return Procedure.from_file(f)


def csv_text(rows):
    cols = list(rows[0])
    return ",".join(cols) + "\n" + "".join(",".join(r[k] if isinstance(r[k], str) else txt(r[k]) for k in cols) + "\n" for r in rows)


FAIL = {"unknown": ("EXP-SOH.000", "Not Found"), "other mps": ("formationV2.mps", "Not Found"), "text": ("notes.txt", "Not Found")}


def judge_failure(c, tag, kind, f, same=False):
    c.require(f"{tag}: a comment and an error", isinstance(f, dict) and isinstance(f.get("comment"), str) and isinstance(f.get("error"), str))
    if not isinstance(f, dict) or same:
        return
    if kind == "sdu":
        c.require(f"{tag}: schedules are not implemented", f.get("error") == "Not Implemented")
    else:
        c.require(f"{tag}: not found", f.get("error") == "Not Found" and f.get("comment") == "Unable to find template: " + FAIL[kind][0])


@contextlib.contextmanager
def environment(w):
    """short driving profile and charging wave"""
    from beep.protocol import maccor as M
    w.write("schemas/US06_velocity_waveform.txt", "t\tv\n0\t0\n1\t5\n2\t6\n3\t1\n")

    def currents(self, rates, mesh):
        return np.array([1.0, 1.5, 0.75]), np.array([1.0, 1.0, 0.75]), np.arange(3)
    with stubs([(M, "PROTOCOL_SCHEMA_DIR", w.path("schemas")), (M.RapidChargeWave, "get_currents_with_uniform_time_basis", currents)]), \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def judge_file(c, tag, kind, P, i, sets, f, out):
    if kind == "formation":
        from beep.protocol import biologic as B
        got = B.Settings.from_file(f, **({"encoding": "utf-8"} if c.symbolic else {}))
        check_formation(c, tag, got, settings_template(), formation_expect(P))
        return
    name = None
    if kind.startswith("drive"):
        name = f"US06_x{P['n_repeats']}_{int(P['max_profile_power'])}W"
    if kind == "rapid":
        name = f"RapidC_step_{P['seq_num']}"
    if name:
        c.require(f"{tag}: its waveform is there", os.path.isfile(os.path.join(out, "mwf_files", name + ".MWF")))
    t, x = expected(c, kind, P, i, diag_sets()[P["diagnostic_parameter_set"]], name)
    compare(c, tag, reads(f), t, x)


def rows(c):
    from beep.protocol.generate_protocol import generate_protocol_files_from_csv as gen
    kinds = [c.choice(f"kind{i}", ks) for i, ks in enumerate(c.params["kinds"])]
    sets = list(diag_sets())
    P = [parameters(c, i, k, sets) for i, k in enumerate(kinds)]
    same = c.params.get("same")
    if same:                                        # the second row has the first one's project and number
        P[1].update(project_name=P[0]["project_name"], seq_num=P[0]["seq_num"])
    elif c.choice("numbers", ["rising", "falling"]) == "falling":
        for p, n in zip(P, [p["seq_num"] for p in P][::-1]):
            p["seq_num"] = n
    with world(c) as w, environment(w):
        head = c.params.get("csv", "Project")
        f = w.write(f"in/{head}_parameters - GP.csv", csv_text(P))
        out = w.path("out")
        for d in c.choice("there", [[], ["procedures", "names", "settings", "mwf_files"]]) if c.params.get("dirs") else ["procedures"]:
            w.dir("out", d)
        w.dir("out")
        before = w.files()
        files, failures, result, message = gen(f, output_directory=out)
        new = w.files() - before
        good = [i for i, k in enumerate(kinds) if k in GOOD]
        twin = same and kinds[0] in GOOD and kinds[1] in GOOD and KINDS[kinds[0]][0][-4:] == KINDS[kinds[1]][0][-4:]
        if twin:
            good.remove(1)
        bad = [i for i in range(len(kinds)) if i not in good]

        def path(i):
            p = f"{P[i]['project_name']}_{P[i]['seq_num']:06d}"
            return os.path.join(out, "settings", p + ".mps") if kinds[i] == "formation" else os.path.join(out, "procedures", p + ".000")
        c.require("a file for each supported row, in order", [os.path.normpath(x) for x in files] == [path(i) for i in good])
        c.require("a failure for each other row, in order", len(failures) == len(bad))
        for j, i in enumerate(bad[:len(failures)]):
            judge_failure(c, f"row {i}", kinds[i], failures[j], same=twin and i == 1)
        c.require("result", result == ("error" if bad else "success"))
        n = len(kinds)
        c.require("counts", message["comment"] == f"Generated {len(good)} of {n} protocols"
                  and message["error"] == (f"Failed to generate {len(bad)} of {n} protocols" if bad else ""))
        names = [x for x in new if os.path.dirname(x) == os.path.join(out, "names")]
        c.require("one list of names", len(names) == 1 and os.path.basename(names[0]).startswith(head + "_names_") and names[0].endswith(".csv"))
        if names:
            with memfs._open(names[0]) as g:
                c.require("names", g.read().split() == [f"{P[i]['project_name']}_{P[i]['seq_num']:06d}_" for i in good])
        waves = {x for x in new if os.path.dirname(x) == os.path.join(out, "mwf_files")}
        c.require("nothing else is written", new - waves == set(names) | {path(i) for i in good})
        for i in good:
            if path(i) in new:
                judge_file(c, f"row {i} ({kinds[i]})", kinds[i], P[i], i, sets, path(i), out)
        c.cover("generated", bool(good))
        if bad:
            c.cover("failures")


def command(c):
    """beep protocol reports what was generated and what was not"""
    from beep.protocol import maccor as M
    kinds = c.choice("rows", [["exp"], ["sdu", "exp"], ["exp", "unknown", "exp"], ["text"], ["exp", "exp"]])
    fault = c.choice("fault", ["none", "fails", "interrupt"] if "exp" in kinds else ["none"])
    halt = c.choice("halt", [False, True])
    where = c.choice("output", ["given", "cwd", "missing"])
    with world(c) as w, environment(w):
        sets = list(diag_sets())
        P = [parameters(c, i, k, sets) for i, k in enumerate(kinds)]
        f = w.write("in/Project_parameters.csv", csv_text(P))
        out = w.dir("out") if where == "given" else w.path("nowhere") if where == "missing" else w.cwd
        extra = []
        if fault != "none":
            def bad(cls, *a, **k):
                raise (KeyboardInterrupt() if fault == "interrupt" else SystemExit("planned failure"))
            extra = [(M.Procedure, "from_exp", classmethod(bad))]
        before = w.files()
        with stubs(extra):
            code, exc = run(w, ["protocol"] + ([] if where == "cwd" else ["-d", out]) + [f], halt=halt, tags=["t"])
        st = w.status_json()
        if where == "missing":
            c.require("a missing output directory is an error", code != 0 and w.files() == before)
            c.cover("missing")
            return
        if fault == "interrupt":
            c.require("an interrupt is not a success", code != 0)
            c.cover("interrupt")
            return
        bad = [i for i, k in enumerate(kinds) if k != "exp"]
        if halt and (bad or fault == "fails"):
            c.require("halts with an error", code != 0)
            c.cover("halts")
            return
        c.require("exit code", code == 0)
        c.require("status", st is not None)
        if st is None:
            return
        c.require("operation", st["op_type"] == "protocol" and st["files"] == {"csv": f, "csv_md5_chksum": md5(f)} and st["metadata"]["tags"] == ["t"]
                  and isinstance(st["walltime"], numbers.Real))
        if fault == "fails":
            c.require("the failure is reported", tb_ok(st["traceback"], "planned failure") and not st["protocol"])
            c.cover("fails")
            return
        want = {os.path.join(out, "procedures", f"name_{P[i]['seq_num']:06d}.000") for i, k in enumerate(kinds) if k == "exp"}
        c.require("each generated file is reported", set(map(os.path.normpath, st["protocol"])) == want and all(x == {"generated": True} for x in st["protocol"].values()))
        c.require("each row not generated is reported", len(st["failures"]) == len(bad))
        for j, i in enumerate(bad[:len(st["failures"])]):
            judge_failure(c, f"row {i}", kinds[i], st["failures"][j])
        c.require("traceback exactly with failures", (st["traceback"] is None) if not bad else tb_ok(st["traceback"], "protocols"))
        for i, k in enumerate(kinds):
            p = os.path.join(out, "procedures", f"name_{P[i]['seq_num']:06d}.000")
            if k == "exp" and os.path.isfile(p):
                judge_file(c, f"row {i}", k, P[i], i, sets, p, out)
        c.cover("reported")


def pats():
    from beep.protocol import biologic as B
    orig = B.Settings.to_file
    return cli_patches() + [(B.Settings, "to_file", lambda self, f, *a, **k: orig(self, f, encoding="utf-8"))]


def harnesses(tier):
    deep = tier == "thorough"
    every = list(KINDS)
    bad = [k for k in every if k not in GOOD]
    H = [dict(name=f"first_{k.replace(' ', '_')}", fn=rows, params=dict(kinds=[[k], every if deep else GOOD + bad[:2]], dirs=deep), patches=pats, weight=5)
         for k in every]
    H += [dict(name="three", fn=rows, params=dict(kinds=[["exp", "unknown"], ["sdu", "formation"], ["v3", "text", "drive"]] if not deep
                                                  else [["exp", "unknown", "formation"], ["sdu", "formation", "rapid"], ["v3", "text", "drive", "v2"]],
                                                  csv="Other"), patches=pats, weight=5),
          dict(name="new_dirs", fn=rows, params=dict(kinds=[["rapid", "drive", "formation", "exp"]], dirs=True), patches=pats, weight=2),
          dict(name="same_number", fn=rows, params=dict(kinds=[["exp", "v3", "rapid"], ["exp", "v3", "formation", "sdu"]], same=True), patches=pats, weight=3),
          dict(name="command", fn=command, params={}, patches=pats, weight=5)]
    return H
