"""P12: Biologic ingestion and cycle numbering by transition rules."""
import datetime
from .common import *
from .memfs import scratch, mem_patches, table, txt

BOUNDS = {"quick": "runs of 4 samples over symbolic sequence (and loop) numbers, rules with 2 transitions and symbolic "
                   "advance counts", "thorough": "runs of 5 samples"}
OUTSIDE = "longer runs; decoding of other text encodings"
ASSUMPTIONS = ["json and csv text round-trip numbers"]


def rules(c, free=False):
    from beep.structure.biologic import CycleTransitionRules
    tr = {}
    if free:
        ends = [(c.int(f"src{k}", 0, 3), c.int(f"dst{k}", 0, 3)) for k in range(2)]
        c.assume(not_(all_of(ends[0][0] == ends[1][0], ends[0][1] == ends[1][1])))
    else:
        ends = [(1, 0), (0, 1)]
    for k, (a, b) in enumerate(ends):
        tr[(a, b)] = c.int(f"adv{k}", 0, 3)
    return CycleTransitionRules(tech_num=2, tech_does_loop=True, adv_cycle_on_start=c.int("start", 0, 2),
                                adv_cycle_on_tech_loop=c.int("loopadv", 0, 2), adv_cycle_seq_transitions=tr,
                                debug_adv_cycle_on_step_transitions={(7, 3): c.int("dbg", 0, 3)})


def numbering(c):
    from beep.structure.biologic import get_cycle_index, CycleTransitionRulesSerializer
    n = c.params["n"]
    R = rules(c, True)
    ns = [c.int(f"n{k}", 0, 2) for k in range(n)]
    loops = None
    if c.params["loop"]:
        loops = [c.int(f"l{k}", 0, 3) for k in range(n)]
        for a, b in zip(loops, loops[1:]):
            c.assume(b >= a)
    with scratch(c) as d:
        p = d.write("rules.json", CycleTransitionRulesSerializer().json(R))
        got = get_cycle_index(ns, p, loop_list=loops) if loops else get_cycle_index(ns, p)
    want, cyc = [], 1 + R.adv_cycle_on_start
    for k in range(n):
        if k:
            adv = 0
            for (a, b), v in R.adv_cycle_seq_transitions.items():
                adv = ite(all_of(ns[k - 1] == a, ns[k] == b, a != b), v, adv)
            if loops:
                adv = ite(loops[k] != loops[k - 1], R.adv_cycle_on_tech_loop, adv)
            cyc = cyc + adv
        want.append(cyc)
    c.require("one cycle number per sample", len(got) == n)
    for a, b in zip(got, want):
        c.require("cycle number follows the transition rules", a == b)
    c.cover("advances", want[-1] > want[0])


def serializer(c):
    from beep.structure.biologic import CycleTransitionRulesSerializer
    R = rules(c)
    S = CycleTransitionRulesSerializer()
    B = S.parse_json(S.json(R))
    for k in ("tech_num", "tech_does_loop", "adv_cycle_on_start", "adv_cycle_on_tech_loop"):
        c.require(f"{k} survives", getattr(B, k) == getattr(R, k))
    for k in ("adv_cycle_seq_transitions", "debug_adv_cycle_on_step_transitions"):
        a, b = getattr(B, k), getattr(R, k)
        c.require(f"{k}: same transitions", set(a) == set(b))
        c.require(f"{k}: same counts", all_of([a[t] == b[t] for t in b if t in a]))
    c.cover("ok")


MPL = ("Run on channel : B6 (SN 1234)\r\nComments : EL9\r\nCycle Definition : Charge/Discharge alternance\r\n"
       "Ns 0\r\n\r\n")


def ingest(c):
    from beep.structure.biologic import BiologicDatapath as B, CycleTransitionRulesSerializer
    n = 3
    how = c.choice("how", ["own", "mapped", "mapped_loop"])
    V = {m: [c.real(f"{m}{r}", lo, hi) for r in range(n)] for m, lo, hi in
         (("Ecell/V", 2, 4.5), ("I/mA", -5000, 5000), ("Q discharge/mA.h", 0, 5000), ("Q charge/mA.h", 0, 5000),
          ("Energy charge/W.h", 0, 20), ("Energy discharge/W.h", 0, 20))}
    ns = [c.choice(f"n{r}", [0, 1]) for r in range(n)]
    cyc = [c.int(f"c{r}", 0, 500) for r in range(n)]
    loops = [0, 0, c.choice("l", [0, 1])]
    secs = ["08:00:01.500000", "08:00:03.250000", "09:00:01.500000"]
    day = c.choice("day", ["01/15/2020", "07/15/2020"])
    off = 8 if day[0] == "0" and day[1] == "1" else 7
    names = ["Ns", "cycle number"] + (["Loop"] if how == "mapped_loop" else []) + list(V) + ["time/s", "x"]
    rows = [[ns[r], cyc[r]] + ([loops[r]] if how == "mapped_loop" else []) + [V[m][r] for m in V] +
            [f"{day} {secs[r]}", 1] for r in range(n)]
    R = rules(c)
    with scratch(c) as d:
        p = d.write("run_CA6.csv", table(names, rows, ";", "Header\n\nVariables: Ecell/V\n"))
        d.write("run_CA6.mpl", MPL)
        if how == "own":
            dp = B.from_file(p)
        else:
            m = d.write("rules.json", CycleTransitionRulesSerializer().json(R))
            dp = B.from_file(p, mapping_file=m)
    D = dp.raw_data
    c.require("one row per sample", len(D) == n)
    for col_, m, f in (("voltage", "Ecell/V", 1), ("current", "I/mA", 1000), ("discharge_capacity", "Q discharge/mA.h", 1000),
                       ("charge_capacity", "Q charge/mA.h", 1000), ("charge_energy", "Energy charge/W.h", 1),
                       ("discharge_energy", "Energy discharge/W.h", 1)):
        c.require(f"{col_} in A, Ah, V, Wh", all_of([close(a, b / f, 1e-6) for a, b in zip(D[col_], V[m])]))
    c.require("steps", list(D["step_index"]) == ns)
    if how == "own":
        c.require("cycle numbers", all_of([a == b for a, b in zip(D["cycle_index"], cyc)]))
    else:
        x, want = 1 + R.adv_cycle_on_start, []
        for r in range(n):
            if r:
                if how == "mapped_loop" and loops[r] != loops[r - 1]:
                    x = x + R.adv_cycle_on_tech_loop
                elif ns[r] != ns[r - 1]:
                    x = x + R.adv_cycle_seq_transitions.get((ns[r - 1], ns[r]), 0)
            want.append(x)
        c.require("cycle numbers", all_of([a == b for a, b in zip(D["cycle_index"], want)]))
    c.require("test time", [float(x) for x in D["test_time"]] == [0.0, 1.75, 3600.0])
    c.require("timestamps", list(D["date_time_iso"]) ==
              [f"2020-{day[:2]}-15T{int(s[:2]) + off:02d}{s[2:]}+00:00" for s in secs])
    c.require("identity", dp.metadata.barcode == "EL9" and dp.metadata.channel_id == 26)
    c.cover(how)


def harnesses(tier):
    n = 4 if tier == "quick" else 5
    hs = [dict(name="numbering", fn=numbering, params=dict(n=n, loop=False), patches=mem_patches, weight=3),
          dict(name="numbering_loop", fn=numbering, params=dict(n=n - 1, loop=True), patches=mem_patches, weight=3),
          dict(name="serializer", fn=serializer, patches=mem_patches),
          dict(name="ingest", fn=ingest, patches=mem_patches, weight=2)]
    return hs
