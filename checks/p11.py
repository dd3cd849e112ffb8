"""P11: ingestion of Arbin, Neware, Battery Archive, Novonix and Indigo runs."""
import datetime
import itertools
from .common import *
from .memfs import scratch, mem_patches, table, txt

BOUNDS = {"all": "files of 3-5 rows; measurements symbolic; step kinds, half cycles and timestamps from lists"}
OUTSIDE = "longer files; file encodings; precision of the recorded column types (readings compared to 1e-3)"
ASSUMPTIONS = ["csv text renders and reads back numbers exactly", "Neware steps start at step time 0"]


def iso(t):
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc).isoformat()


def cols_match(c, D, pairs, tol=1e-3):
    for a, vals in pairs.items():
        c.require(f"{a} is what was recorded", all_of([close(x, y, tol) for x, y in zip(D[a], vals)]))


def arbin(c):
    from beep.structure.arbin import ArbinDatapath as A
    n = 3
    V = {m: [c.real(f"{m}{r}", lo, hi) for r in range(n)] for m, lo, hi in
         (("Test_Time", 0, 9000), ("Step_Time", 0, 900), ("Current", -5, 5), ("Voltage", 2, 4.5),
          ("Charge_Capacity", 0, 5), ("Discharge_Capacity", 0, 5), ("Charge_Energy", 0, 20),
          ("Discharge_Energy", 0, 20), ("Internal_Resistance", 0, 1), ("Temperature", -10, 60))}
    cyc = [c.int(f"c{r}", 0, 2000) for r in range(n)]
    step = [c.int(f"s{r}", 0, 50) for r in range(n)]
    t0 = c.choice("t0", [1494591600, 1577836799, 1609459261])
    dt = [t0, t0 + 37, t0 + 86399]
    names = ["", "Data_Point", "DateTime", "Step_Index", "Cycle_Index"] + list(V)
    rows = [[r, r + 1, dt[r], step[r], cyc[r]] + [V[m][r] for m in V] for r in range(n)]
    meta = c.choice("meta", ["beside", "given", "none"])
    with scratch(c) as d:
        p = d.write("2017-05-09_tests_20170630-3_CH32.csv", table(names, rows))
        mt = table(["test_id", "device_id", "iv_ch_id", "first_start_datetime", "schedule_file_name", "item_id"],
                   [[296, 60369369, 28, 1498867504, "s.sdu", "EL1"]])
        if meta == "beside":
            d.write("2017-05-09_tests_20170630-3_CH32_Metadata.csv", mt)
            dp = A.from_file(p)
        elif meta == "given":
            dp = A.from_file(p, metadata_path=d.write("other.csv", mt))
        else:
            dp = A.from_file(p)
    D = dp.raw_data
    c.require("one row per record", len(D) == n)
    cols_match(c, D, {m.lower(): V[m] for m in V})
    cols_match(c, D, {"cycle_index": cyc, "step_index": step, "data_point": [1, 2, 3]})
    c.require("timestamps to the second, UTC", list(D["date_time_iso"]) == [iso(t) for t in dt])
    if meta != "none":
        c.require("identity", (dp.metadata.barcode, dp.metadata.protocol, dp.metadata.channel_id) == ("EL1", "s.sdu", 28))
    c.cover(meta)


def neware(c):
    from beep.structure.neware import NewareDatapath as N
    H0 = ["Cycle ID", "Cap_Chg(mAh)", "Cap_DChg(mAh)"]
    H1 = ["", '"Step ID"', '"Step Name"', '"DCIR(O)"', '"x"']
    H1 = ["", "Step ID", "Step Name", '"DCIR(O)"', "x"]
    H2 = ["", "", "Record ID", "Time(h:min:s.ms)", "Voltage(V)", "Current(mA)", "Temperature(C)",
          "Capacitance_Chg(mAh)", "Capacitance_DChg(mAh)", "Engy_Chg(mWh)", "Engy_DChg(mWh)", "Realtime"] + [""] * 12
    h0 = c.int("h", 0, 30)
    m0 = c.int("m", 0, 59)
    plan = c.choice("plan", [[(1, 1, 2), (1, 2, 2), (2, 1, 1)], [(1, 1, 1), (1, 2, 3)], [(3, 2, 2), (4, 2, 2)]])
    ir = c.choice("ir", [["\t-", "0.5", "\t-"], ["0.25", "\t-", "0.75"], ["0.25", "0.5", "0.75"]])
    text = ",".join(H0) + "\n" + ",".join(H1) + "\n" + ",".join(H2) + "\n"
    rec, want, tt, last, cyc_seen = 0, [], 0, None, None
    for k, (cy, st, m) in enumerate(plan):
        if cy != cyc_seen:
            text += f"{cy},1,1\n"
            cyc_seen = cy
        text += f',"{st}","CC","{ir[k]}",\n' if False else f',"{st}",CC,{ir[k]},1\n'
        prev = 0
        for r in range(m):
            rec += 1
            if r == 0:
                hh, mm, ss = 0, 0, 0.0
            else:
                hh, mm, ss = h0, m0, c.real(f"s{k}_{r}", 0, 59)
                if r > 1:
                    c.assume(ss >= prev_ss)
            prev_ss = ss
            t = hh * 3600 + mm * 60 + ss
            tt = tt + (t - prev if r else 0)
            prev = t
            v = {a: c.real(f"{a}{rec}", lo, hi) for a, lo, hi in
                 (("v", 2, 4.5), ("i", -5000, 5000), ("T", -10, 60), ("qc", 0, 5000), ("qd", 0, 5000), ("ec", 0, 20000),
                  ("ed", 0, 20000))}
            want.append(dict(cycle_index=cy, step_index=st, data_point=rec, step_time=t, test_time=tt, voltage=v["v"],
                             current=v["i"] / 1000, temperature=v["T"], charge_capacity=v["qc"] / 1000,
                             discharge_capacity=v["qd"] / 1000, charge_energy=v["ec"] / 1000,
                             discharge_energy=v["ed"] / 1000))
            text += ",".join(["", "", str(rec), f"{txt(hh)}:{txt(mm)}:{txt(ss)}"] +
                             [txt(v[a]) for a in ("v", "i", "T", "qc", "qd", "ec", "ed")] +
                             ["\t01/15/2020 08:00:%02d" % rec] + [""] * 11 + ["1"]) + "\n"
    with scratch(c) as d:
        p = d.write("neware_test.csv", text, encoding="ISO-8859-1")
        dp = N.from_file(p)
    D = dp.raw_data
    c.require("one row per record", len(D) == len(want))
    if len(D) != len(want):
        return
    for a in want[0]:
        c.require(f"{a} in SI units", all_of([close(x, w[a], 0.05 if "time" in a else 2e-3) for x, w in zip(D[a], want)]))
    # resistance: own step's, else the last known before it, else the first known
    irs = [np.nan if x == "\t-" else float(x) for x in ir[:len(plan)]]
    per = [x for x, (_, _, m) in zip(irs, plan) for _ in range(m)]
    filled = pd.Series(per).ffill().bfill()
    c.require("internal resistance of the step", np.allclose(np.array(D["internal_resistance"], dtype=float),
                                                           filled, atol=1e-3, equal_nan=True))
    c.require("timestamps", list(D["date_time_iso"]) ==
              ["2020-01-15T16:00:%02d+00:00" % r for r in range(1, len(want) + 1)])
    c.cover("read")


def archive(c):
    from beep.structure.battery_archive import BatteryArchiveDatapath as B, decide_step_index
    n = c.params["n"]
    t = [c.real(f"t{r}", 0, 9000) for r in range(n)]
    non_decreasing(c, t)
    kind, cur = [], []
    for r in range(n):
        k = c.choice(f"k{r}", [1, 2, 3])
        i = c.real(f"i{r}", -5, 5)
        c.assume({1: abs(i) < 0.9e-6, 2: i > 1.1e-6, 3: i < -1.1e-6}[k])
        kind.append(k)
        cur.append(i)
    V = {m: [c.real(f"{m}{r}", lo, hi) for r in range(n)] for m, lo, hi in
         (("Voltage (V)", 2, 4.5), ("Charge_Capacity (Ah)", 0, 5), ("Discharge_Capacity (Ah)", 0, 5),
          ("Charge_Energy (Wh)", 0, 20), ("Discharge_Energy (Wh)", 0, 20), ("Cell_Temperature (C)", -10, 60))}
    names = ["Date_Time", "Test_Time (s)", "Cycle_Index", "Current (A)", "Environment_Temperature (C)"] + list(V)
    rows = [["2017-04-17 06:39:%02d.500" % r, t[r], 1 + r // 2, cur[r], 25.0] + [V[m][r] for m in V] for r in range(n)]
    with scratch(c) as d:
        dp = B.from_file(d.write("SNL_18650_timeseries.csv", table(names, rows)))
    D = dp.raw_data
    c.require("one row per record", len(D) == n)
    c.require("rest / charge / discharge steps", [int(x) for x in D["step_index"]] == kind)
    start, want = t[0], []
    for r in range(n):
        if r and kind[r] != kind[r - 1]:
            start = t[r]
        want.append(t[r] - start)
    cols_match(c, D, {"step_time": want, "test_time": t, "current": cur, "cycle_index": [1 + r // 2 for r in range(n)]})
    cols_match(c, D, {m.lower().split(" ")[0].replace("cell_", ""): V[m] for m in V})
    c.require("timestamps", list(D["date_time_iso"]) ==
              ["2017-04-17T06:39:%02d.500000+00:00" % r for r in range(n)])
    c.cover("read")


CHG = {0: False, 1: True, 2: False, 7: True, 8: True, 9: False, 10: False}


def novonix(c):
    from beep.structure.novonix import NovonixDatapath as N
    plan = c.choice("plan", [[(1, 0), (1, 1), (1, 8), (1, 9), (2, 2)], [(1, 7), (1, 2), (2, 0), (2, 10), (2, 1)],
                             [(5, 2), (5, 9), (6, 7), (6, 10), (6, 0)]])
    n = len(plan)
    V = {m: [c.real(f"{m}{r}", lo, hi) for r in range(n)] for m, lo, hi in
         (("Run Time (h)", 0, 900), ("Step Time (h)", 0, 90), ("Current (A)", -5, 5), ("Potential (V)", 2, 4.5),
          ("Capacity (Ah)", 0, 5), ("Energy (Wh)", 0, 20), ("Temperature (°C)", -10, 60),
          ("Circuit Temperature (°C)", -10, 60))}
    fmt = c.choice("fmt", ["%Y-%m-%d %I:%M:%S %p", "%m/%d/%Y %I:%M:%S %p"])
    base = datetime.datetime(2020, 5, 4, 11, 59, 58)
    stamps = [base + datetime.timedelta(seconds=r) for r in range(n)]
    names = ["Date and Time", "Cycle Number", "Step Type"] + list(V) + ["Step Number", "Step position"]
    rows = [[stamps[r].strftime(fmt), plan[r][0], plan[r][1]] + [V[m][r] for m in V] + [r, 1] for r in range(n)]
    head = "[Summary]\nSerial Number: SN42\nProtocol: cyc\nDescription: d\n[End Summary]\n"
    with scratch(c) as d:
        dp = N.from_file(d.write("nova_CH1.csv", table(names, rows, ",", head)))
    D = dp.raw_data
    c.require("one row per record", len(D) == n)
    cols_match(c, D, {"test_time": V["Run Time (h)"], "step_time": V["Step Time (h)"], "current": V["Current (A)"],
                      "voltage": V["Potential (V)"], "temperature": V["Temperature (°C)"],
                      "cycle_index": [p[0] for p in plan], "step_index": [p[1] for p in plan]})
    for q, m in (("capacity", "Capacity (Ah)"), ("energy", "Energy (Wh)")):
        for r, (cy, st) in enumerate(plan):
            same = [j for j in range(n) if plan[j][0] == cy]
            chg = [V[m][j] for j in same if CHG[plan[j][1]]]
            got_c, got_d = D[f"charge_{q}"].iloc[r], D[f"discharge_{q}"].iloc[r]
            if CHG[st]:
                c.require(f"charge {q} of a charge step", close(got_c, V[m][r], 1e-3))
                c.require(f"no discharge {q} on a charge step", is_nan(got_d))
            else:
                c.require(f"no charge {q} on other steps", is_nan(got_c))
                ref = smax(chg) if chg else smax([V[m][j] for j in same])
                if st != 0:
                    c.require(f"discharge {q} counts down from the cycle's charge", close(got_d, ref - V[m][r], 1e-3))
    c.require("timestamps", list(D["date_time_iso"]) == [x.isoformat() for x in stamps])
    c.require("identity", (dp.metadata.barcode, dp.metadata.protocol) == ("SN42", "cyc"))
    c.cover("read")


def novonix_unknown(c):
    from beep.structure.novonix import NovonixDatapath as N
    st = c.choice("step", [3, 4, 5, 6, 11, 99, 1])
    names = ["Date and Time", "Cycle Number", "Step Type", "Run Time (h)", "Step Time (h)", "Current (A)",
             "Potential (V)", "Capacity (Ah)", "Energy (Wh)", "Temperature (°C)", "Circuit Temperature (°C)"]
    i = c.real("i", -5, 5)
    rows = [["2020-05-04 11:59:58 AM", 1, x, 1.0, 1.0, i, 3.0, 1.0, 1.0, 25.0, 25.0] for x in (1, st)]
    with scratch(c) as d:
        p = d.write("nova_CH1.csv", table(names, rows, ","))
        bad, _ = raises((ValueError,), lambda: N.from_file(p))
    c.require("unknown step types are refused", bad == (st != 1))
    c.cover("ok" if not bad else "refused")


class H5:
    """stand-in for the hdf5 file of a run"""
    def __init__(self, *a, **k):
        pass
    data = None

    def get(self, k):
        return self if k == "time_series_data" else H5.data[k]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def indigo_patches():
    import beep.structure.indigo as I
    import types
    return [(I, "h5py", types.SimpleNamespace(File=H5))] if "h5py" in vars(I) else []


def indigo(c):
    import beep.structure.indigo as I
    n = 3
    half = [c.choice(f"h{r}", [1, 2, 3, 4]) for r in range(n)]
    cell = [7, 7, c.choice("cell", [7, 8])]
    q = [c.real(f"q{r}", -20000, 20000) for r in range(n)]
    e = [c.real(f"e{r}", -70000, 70000) for r in range(n)]
    i = [c.real(f"i{r}", 0.1, 5) for r in range(n)]
    v = [c.real(f"v{r}", 2, 4.5) for r in range(n)]
    T = [c.real(f"T{r}", -10, 60) for r in range(n)]
    t = [c.real(f"t{r}", 0, 1000) for r in range(n)]
    us = [1500000000000000 + 1500000 * r for r in (1, 0, 2)]
    names = ["cell_coulomb_count_c", "cell_energy_j", "cell_current_a", "cell_voltage_v", "cell_temperature_c",
             "test_time", "half_cycle_count", "cycle_count", "cell_id", "system_time_us"]
    vals = [[q[r], e[r], i[r], v[r], T[r], t[r], half[r], (half[r] + 1) // 2, cell[r], us[r]] for r in range(n)]
    dt = object if c.symbolic else float
    arr = np.array(vals, dtype=dt)
    blocks = {"block0_values": arr[:, :6], "block1_values": arr[:, 6:9], "block2_values": arr[:, 9:]}
    idx = c.choice("idx", [[0, 1, 2], [5, 7, 9]])
    saved = None
    if c.symbolic:
        H5.data = dict(blocks, axis0=np.array([x.encode() for x in names], dtype="S"), axis1=np.array(idx))
        bad, dp = raises((ValueError,), lambda: I.IndigoDatapath.from_file("/x.h5"))
    else:
        with scratch(c) as d:
            import h5py
            p = d.path("x.h5")
            with h5py.File(p, "w") as f:
                g = f.create_group("time_series_data")
                g["axis0"] = np.array([x.encode() for x in names], dtype="S")
                g["axis1"] = np.array(idx)
                for k, b in blocks.items():
                    g[k] = b.astype(float)
            bad, dp = raises((ValueError,), lambda: I.IndigoDatapath.from_file(p))
    c.require("files with more than one cell are refused", bad == (cell[2] != 7))
    if bad:
        c.cover("refused")
        return
    D = dp.raw_data
    c.require("one row per record", len(D) == n)
    odd = [h % 2 == 1 for h in half]
    cols_match(c, D, {"charge_capacity": [abs(a) / 3600 if o else 0 for a, o in zip(q, odd)],
                      "discharge_capacity": [0 if o else abs(a) / 3600 for a, o in zip(q, odd)],
                      "charge_energy": [abs(a) if o else 0 for a, o in zip(e, odd)],
                      "discharge_energy": [0 if o else abs(a) for a, o in zip(e, odd)],
                      "current": i, "voltage": v, "temperature": T, "test_time": t, "step_index": half,
                      "cycle_index": [(h + 1) // 2 for h in half]})
    c.require("timestamps", list(D["date_time_iso"]) == [iso(x / 1e6) for x in us])
    c.require("identity", dp.metadata.raw["indigo_cell_id"] == 7 and
              dp.metadata.raw["start_datetime"] == iso(us[1] / 1e6))
    c.cover("read")


def harnesses(tier):
    hs = [dict(name="arbin", fn=arbin, patches=mem_patches), dict(name="neware", fn=neware, patches=mem_patches),
          dict(name="archive_n2", fn=archive, params=dict(n=2), patches=mem_patches),
          dict(name="archive_n3", fn=archive, params=dict(n=3), patches=mem_patches),
          dict(name="archive_n4", fn=archive, params=dict(n=4), patches=mem_patches, weight=3),
          dict(name="novonix", fn=novonix, patches=mem_patches),
          dict(name="novonix_unknown", fn=novonix_unknown, patches=mem_patches),
          dict(name="indigo", fn=indigo, patches=indigo_patches, weight=2)]
    return hs
