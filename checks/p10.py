"""P10: Maccor ingestion."""
from .common import *
from .memfs import scratch, mem_patches, table

BOUNDS = {"quick": "runs of 3-5 rows with any step ends, cycle changes, states and waveform readings",
          "thorough": "runs of 4-6 rows"}
OUTSIDE = "longer runs; two consecutive steps with the same step number; precision of the recorded column types"
ASSUMPTIONS = ["a new cycle starts only at a new step whose predecessor recorded a step end",
               "two consecutive steps have different numbers"]
COLS = {("capacity", "charge"): ("_wf_chg_cap", "C"), ("capacity", "discharge"): ("_wf_dis_cap", "D"),
        ("energy", "charge"): ("_wf_chg_e", "C"), ("energy", "discharge"): ("_wf_dis_e", "D")}


def accumulate(base, ends, newcyc):
    """own reading plus the final readings of the finished steps of the same cycle"""
    out, acc = [], 0
    for r, b in enumerate(base):
        if r and ends[r - 1]:
            acc = 0 if newcyc[r] else out[r - 1]
        out.append(b + acc)
    return out


def sums(c):
    from beep.structure.maccor import MaccorDatapath as M
    n = c.params["n"]
    q, st = c.params["what"]
    wf, code = COLS[(q, st)]
    vals = [c.real(f"q{r}", -2, 5) for r in range(n)]
    state = [c.choice(f"state{r}", ["C", "D"] if r < 2 else ["C", "D", "R"]) if r < c.params["free"] else
             ["C", "D", "R", "C", "D", "S", "C"][r] for r in range(n)]
    wfv = c.choice("waveform", c.params["wf"])
    chg = [False] + [bool(c.bool(f"chg{r}")) for r in range(1, n)]
    # inside a step (waveforms) the status may look like a step end
    es = [c.int(f"es{r}", 0, 300) if r + 1 < n and chg[r + 1] else (200 if r % 2 else 1) for r in range(n)]
    newcyc = [False] * n
    step, cyc = [1], [1]
    for r in range(1, n):
        step.append(step[-1] + 1 if chg[r] and r % 2 else (step[-1] - 1 if chg[r] else step[-1]))
        if chg[r]:
            newcyc[r] = bool(c.bool(f"new{r}"))
        cyc.append(cyc[-1] + (1 if newcyc[r] else 0))
    ends = []
    for r in range(n):
        if r + 1 < n and chg[r + 1]:
            inside = all_of(128 <= es[r], es[r] <= 255)
            if newcyc[r + 1]:
                c.assume(inside)
                ends.append(True)
            else:
                ends.append(bool(inside))
        else:
            ends.append(False)
    w = {k: [np.nan] * n for k in ("_wf_chg_cap", "_wf_dis_cap", "_wf_chg_e", "_wf_dis_e")}
    for r in wfv:
        for k in w:
            w[k][r] = c.real(f"{k}{r}", -2, 5)
    df = frame(c, dict({"_capacity": vals if q == "capacity" else [9.0] * n,
                        "_energy": vals if q == "energy" else [9.0] * n, "_state": state,
                        "_ending_status": es, "step_index": step, "cycle_index": cyc}, **w))
    snap = snapshot(df)
    got = list(M.quantity_sum(df, q, st))
    base = [w[wf][r] if r in wfv else (vals[r] if state[r] == code else 0) for r in range(n)]
    want = accumulate(base, ends, newcyc)
    c.cover("two cycles", any(newcyc))
    for r in range(n):
        c.require("running total of the cycle", close(got[r], want[r]))
    for l, t in same_frame(df, snap):
        c.require("input: " + l, t)


NAMES = ["Rec#", "Cyc#", "Step", "Test (Sec)", "Step (Sec)", "Amp-hr", "Watt-hr", "Amps", "Volts", "State", "ES",
         "DPt Time", "ACImp/Ohms", "DCIR/Ohms", "WF Chg Cap", "WF Dis Cap", "WF Chg E", "WF Dis E", "Range"] + \
        [f"Var{i}" for i in range(1, 16)]
STAMPS = [("10/21/2019 23:59:59", "2019-10-22T06:59:59+00:00"), ("10/22/2019", "2019-10-22T07:00:00+00:00"),
          ("01/15/2020 08:00:00", "2020-01-15T16:00:00+00:00"), ("11/03/2019 01:30:00", "2019-11-03T08:30:00+00:00"),
          ("03/08/2020 03:30:00", "2020-03-08T10:30:00+00:00")]
HEAD = "Today's Date 10/21/2019  Date of Test:\t08/30/2019\t Filename:\td:\\d.047\tProcedure:\tp 1.000\t" \
       "Comment/Barcode:\tEL1\t\n"


def ingest(c):
    from beep.structure.maccor import MaccorDatapath as M
    k = c.choice("stamp", list(range(len(STAMPS))))
    n = 4
    V = {m: [c.real(f"{m}{r}", lo, hi) for r in range(n)] for m, lo, hi in
         (("t", 0, 1000), ("s", 0, 1000), ("q", 0, 5), ("e", 0, 20), ("i", -5, 5), ("v", 2, 4.5), ("z", 0, 1),
          ("d", 0, 1))}
    state = ["C", "C", "D", "C"]
    es = [1, 133, 133, 1]
    step = [2, 2, 3, 2]
    cyc = [0, 0, 0, 1]
    wf = c.bool("wf")
    wq = [c.real(f"w{j}", 0, 5) for j in range(4)] if wf else None
    rows = []
    for r in range(n):
        rows.append([r + 1, cyc[r], step[r], V["t"][r], V["s"][r], V["q"][r], V["e"][r], V["i"][r], V["v"][r],
                     state[r], es[r], STAMPS[(k + r) % len(STAMPS)][0], V["z"][r], V["d"][r]] +
                    (wq if wf and r == 2 else [""] * 4) + [1] + [0] * 15)
    name = c.choice("file", ["PreDiag_000229_000229.047", "PredictionDiagnostics_000100.092"])
    with scratch(c) as d:
        p = d.write(name, table(NAMES, rows, "\t", HEAD))
        dp = M.from_file(p)
    D = dp.raw_data
    c.require("one row per record", len(D) == n)
    for a, b in (("test_time", "t"), ("step_time", "s"), ("current", "i"), ("voltage", "v"),
                 ("ac_impedence", "z"), ("internal_resistance", "d")):
        c.require(f"{a} is the recorded column", all_of([close(x, y, 1e-3) for x, y in zip(D[a], V[b])]))
    c.require("record, cycle and step numbers", list(D["data_point"]) == [1, 2, 3, 4]
              and list(D["cycle_index"]) == cyc and list(D["step_index"]) == step)
    ends, new = [False, True, True, False], [False, False, False, True]
    for a, b, code, w in (("charge_capacity", "q", "C", 0), ("discharge_capacity", "q", "D", 1),
                          ("charge_energy", "e", "C", 2), ("discharge_energy", "e", "D", 3)):
        base = [wq[w] if wf and r == 2 else (V[b][r] if state[r] == code else 0) for r in range(n)]
        c.require(f"{a}", all_of([close(x, y, 1e-3) for x, y in zip(D[a], accumulate(base, ends, new))]))
    c.require("timestamps are Pacific time in UTC",
              list(D["date_time_iso"]) == [STAMPS[(k + r) % len(STAMPS)][1] for r in range(n)])
    c.require("identity", (dp.metadata.barcode, dp.metadata.protocol, dp.metadata.channel_id) ==
              ("EL1", "p 1.000", 47 if name.endswith("047") else 92))
    c.cover("done")


def harnesses(tier):
    q = tier == "quick"
    hs = []
    for w in COLS:
        nm = "_".join(w)
        hs.append(dict(name=f"sums_states_{nm}", fn=sums, params=dict(n=3 if q else 4, free=3, wf=[()], what=w), weight=3))
        hs.append(dict(name=f"sums_waveform_{nm}", fn=sums,
                       params=dict(n=3 if q else 4, free=0, wf=[(1,), (0, 1), (2,)], what=w), weight=2))
    hs.append(dict(name="sums_long", fn=sums, params=dict(n=5 if q else 6, free=0, wf=[()], what=("energy", "charge")),
                   weight=6))
    hs.append(dict(name="ingest", fn=ingest, patches=mem_patches, weight=2))
    return hs
