"""P31: impedance spectra are read completely, belong to their run, and survive serialisation."""
import datetime
import json
from .feat import *
from .cli import world, txt, raises

BOUNDS = {"all": "spectra of 1-3 (thorough 4) frequencies and 3-5 columns with symbolic readings and missing cells, any start date from a list, "
                 "directories with up to 5 neighbouring files; frames of 1-3 rows for the serialised form"}
OUTSIDE = ("spectra of other cyclers than Maccor; the spectra of a datapath whose file name has no extension; the json text itself (monty)")
ASSUMPTIONS = ["the operating system may list a directory in any order: only the set of automatically found files is required"]

COLS = ["Freq(Hz)", "Polar(V)", "time(sec)", "Z'(a)", "Z''(b)", "Phase_Angle"]
DATES = [("Wednesday, November 2, 2016", "15:58", "2016-11-02T15:58:00"), ("Saturday, February 29, 2020", "00:05", "2020-02-29T00:05:00"),
         ("Sunday, December 31, 2017", "23:59", "2017-12-31T23:59:00"), ("Monday, January 1, 2018", "9:07", "2018-01-01T09:07:00")]


def spectrum_text(cols, rows, sweep="Open Circut Voltage", date=DATES[0], method="EIS 1.000FRA default", name="D_4267.EDA0001.041", blank=True, eol="\n"):
    head = ["MACCOR, INC.    AC Impedance Test", f"Frequency Sweep:   {sweep}", method, name, "Line 4", "Line 5",
            f"Start Date:  {date[0]} Start Time:   {date[1]}", "Line 7", "0.0005  2  0  10", ""]
    body = ["\t".join(cols)] + [""] * blank + ["\t".join(r) for r in rows]
    return eol.join(head + body) + eol


def judge(c, tag, eis, cols, vals):
    c.require(f"{tag}: columns", list(eis.data.columns) == cols)
    c.require(f"{tag}: one row per frequency", len(eis.data) == len(vals))
    if list(eis.data.columns) == cols and len(eis.data) == len(vals):
        for i, r in enumerate(vals):
            c.require(f"{tag}: readings", all_of([same_cell(eis.data[q].iloc[i], v) for q, v in zip(cols, r)]))


def spectrum(c):
    from beep.structure.maccor import MaccorDatapath
    n = c.params["n"]
    cols = c.choice("columns", [COLS[:3], COLS[1:] + COLS[:1]])
    vals = [[c.real(f"r{i}_{j}", -1e4, 1e4) for j in range(len(cols))] for i in range(n)]
    gap = c.choice("missing", [None, (0, 1), (n - 1, 2)])
    fixed = c.choice("a reading", [None, "-0.0012", "1.5E-03", "0", "-0.00", "100000.0"])
    if fixed:
        vals[n // 2][2] = float(fixed)
    if gap:
        vals[gap[0]][gap[1]] = float("nan")
    date = c.choice("date", DATES)
    sweep = c.choice("sweep", ["Open Circut Voltage", "Potentiostatic", "Open Circuit"])
    blank = c.choice("blank line", [True, False])
    with world(c) as w:
        p = w.write("a.EDA0001.041", spectrum_text(cols, [["" if is_nan(v) is True else fixed if fixed and not symbolic(v) and v == float(fixed) else txt(v)
                                                         for v in r] for r in vals], sweep, date, blank=blank,
                                                   eol=c.choice("line ends", ["\n", "\r\n"])))
        e = MaccorDatapath.MaccorEIS.from_file(p)
    judge(c, "file", e, cols, vals)
    m = e.metadata
    c.require("sweep", m["frequency_sweep"] == sweep.replace("Circut", "Circuit"))
    c.require("start", m["start"] == date[2])
    c.require("method and file", m["method"].strip() == "EIS 1.000FRA default" and m["filename"].strip() == "D_4267.EDA0001.041")
    c.require("settings", list(m["line_8"]) == ["0.0005", "2", "0", "10"])
    c.cover("read")


def runs(c):
    from beep.structure.maccor import MaccorDatapath
    run = c.choice("run", ["cell_1.041", "cell.1.041", "a b.002"])
    stem, ext = run.rsplit(".", 1)
    files = {run: None, f"{stem}.EDA0001.{ext}": 1.5, f"{stem}.EDA0002.{ext}": 2.5, f"{stem}.EDA0001.999": 3.5, f"other.EDA0001.{ext}": 4.5,
             f"{stem}2.EDA0001.{ext}": 5.5}
    have = [f for i, f in enumerate(files) if f == run or c.choice(f"file {i}", [True, False] if i < 4 else [True])]
    x = {f: c.real(f"x{i}", -5, 5) for i, f in enumerate(files)}
    with world(c) as w:
        for f in have:
            w.write("d/" + f, "raw" if f == run else spectrum_text(COLS[:3], [[txt(x[f]), "1.0", "2.0"]]))
        w.write("e/" + f"{stem}.EDA0003.{ext}", spectrum_text(COLS[:3], [["9.0", "1.0", "2.0"]]))
        raw = pd.DataFrame({"cycle_index": [1, 2], "voltage": [3.0, 4.0]})
        paths = {"raw": w.path("d", run), "metadata": w.path("d", run)}
        d = MaccorDatapath(raw_data=raw, metadata={"barcode": "x"}, paths=dict(paths), schema=None)
        before = d.raw_data.copy()
        give = c.choice("given", ["none", "one", "two", "again"])
        mine = [f for f in have if f in list(files)[1:3]]
        if give in ("none", "again"):
            d.load_eis()
            want = sorted(mine)
            if give == "again":
                want = [f"other.EDA0001.{ext}"]
                d.load_eis([w.path("d", want[0])])
        else:
            want = [f"{stem}2.EDA0001.{ext}", f"other.EDA0001.{ext}"][:1 if give == "one" else 2]
            d.load_eis([w.path("d", f) for f in want])
        got = [os.path.basename(p) for p in d.paths["eis"]]
        c.require("exactly the run's spectra" if give == "none" else "exactly the files given",
                  (sorted(got) if give == "none" else got) == want and all(os.path.dirname(p) == w.path("d") for p in d.paths["eis"]))
        c.require("one spectrum per file", len(d.eis) == len(got))
        if len(d.eis) == len(got):
            for f, e in zip(got, d.eis):
                judge(c, "spectrum", e, COLS[:3], [[x[f], 1.0, 2.0]])
        c.require("the run keeps its paths and data", all(d.paths[k] == paths[k] for k in paths) and d.raw_data.equals(before))
    c.cover("found", len(want) > 1)


def serial(c):
    from beep.structure.base_eis import EIS
    from beep.structure.maccor import MaccorDatapath
    n = c.params["n"]
    maccor = c.choice("kind", ["frame", "maccor"]) == "maccor"
    cols = c.choice("columns", [COLS[:3], COLS[3:][::-1]])
    vals = [[c.real(f"r{i}_{j}", -1e4, 1e4) for j in range(3)] for i in range(n)]
    if c.choice("missing", [False, True]):
        vals[-1][1] = float("nan")
    if maccor:
        with world(c) as w:
            p = w.write("a.EDA0001.041", spectrum_text(cols, [["" if is_nan(v) is True else txt(v) for v in r] for r in vals]))
            e = MaccorDatapath.MaccorEIS.from_file(p)
        meta = dict(e.metadata)
        K = MaccorDatapath.MaccorEIS
    else:
        meta = pd.DataFrame({"b": ["u", "v"], "a": [c.real("m0", 0, 9), c.real("m1", 0, 9)]})
        K = EIS
        e = K(frame(c, {q: [r[j] for r in vals] for j, q in enumerate(cols)}, index=c.choice("rows", [None, list(range(10, 10 + n))])), meta.copy())
    d = e.as_dict()
    c.require("names its class", d["@class"] == K.__name__ and d["@module"] == K.__module__)
    again = K.from_dict({k: v for k, v in d.items() if k[0] != "@"})
    c.require("same class", type(again) is K)
    judge(c, "read back", again, cols, vals)
    judge(c, "original", e, cols, vals)
    if maccor:
        c.require("metadata", isinstance(again.metadata, dict) and again.metadata == meta and e.metadata == meta)
    else:
        c.require("metadata columns", sorted(again.metadata.columns) == ["a", "b"] and len(again.metadata) == 2)
        if sorted(again.metadata.columns) == ["a", "b"] and len(again.metadata) == 2:
            c.require("metadata", all_of([same_cell(again.metadata[q].iloc[i], meta[q].iloc[i]) for q in "ab" for i in range(2)]))
    c.cover("both", maccor)
    c.cover("frame", not maccor)


def harnesses(tier):
    n = 4 if tier == "thorough" else 2
    return [dict(name="spectrum", fn=spectrum, params=dict(n=n), patches=feature_patches, weight=2),
            dict(name="spectrum1", fn=spectrum, params=dict(n=1), patches=feature_patches, weight=2),
            dict(name="runs", fn=runs, params={}, patches=feature_patches, weight=3),
            dict(name="serial", fn=serial, params=dict(n=n), patches=feature_patches, weight=2)]
