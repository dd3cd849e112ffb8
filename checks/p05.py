"""P05: constant-voltage metrics of a charge, pauses, cycle life."""
from .common import *

BOUNDS = {"quick": "charges of 1-4 samples; summaries of 1-5 cycles; all measurements symbolic",
          "thorough": "charges of 1-5 samples; summaries of 1-6 cycles"}
OUTSIDE = "longer charges; NaN samples; charges without any constant-voltage interval (result unspecified)"
ASSUMPTIONS = ["time strictly increases"]


def series(c, n):
    t, v, i, q = [], [], [], []
    for k in range(n):
        t.append(c.real(f"t{k}", 0, 1000))
        v.append(c.real(f"v{k}", 2, 4.5))
        i.append(c.real(f"i{k}", 0.01, 5))
        q.append(c.real(f"q{k}", 0, 5))
    for a, b in zip(t, t[1:]):
        c.assume(b > a + 0.01)
    return t, v, i, q


def cv_start(c, t, v, i, dt_tol, dv_tol, di_tol):
    """index of the first interval that is constant-voltage, or None."""
    for k in range(len(t) - 1):
        dt = t[k + 1] - t[k]
        ok = all_of(dt >= dt_tol, abs(v[k + 1] - v[k]) <= dv_tol * dt, abs(i[k + 1] - i[k]) >= di_tol * dt)
        if ok:
            return k
    return None


def segment(c):
    from beep.structure import base as B
    n = c.params["n"]
    t, v, i, q = series(c, n)
    tols = c.params.get("tols")
    df = frame(c, {"test_time": t, "voltage": v, "current": i, "charge_capacity": q})
    if tols:
        CV = B.get_CV_segment_from_charge(df, *tols)
    else:
        CV = B.get_CV_segment_from_charge(df)
        tols = (1, 1e-5, 1e-4)
    k = cv_start(c, t, v, i, *tols)
    if k is None:
        c.cover("none")
        return
    c.cover("found")
    first = max(k - 1, 0)
    c.require("runs from just before the first constant-voltage interval to the end of the charge",
              len(CV) == n - first)
    if len(CV) != n - first:
        return
    c.require("same samples", all_of([close(a, b) for a, b in zip(CV["test_time"], t[first:])]))
    c.require("CV time", close(B.get_CV_time(CV), t[-1] - t[first]))
    c.require("CV current is the last current", close(B.get_CV_current(CV), i[-1]))
    c.require("CV capacity", close(B.get_CV_capacity(CV), q[-1] - q[first]))


def in_summary(c):
    """CV columns of the regular summary are those of the cycle's own charging rows."""
    t, v, i, q = series(c, c.params["n"])
    sgn = c.choice("tail", [0, 1])
    df = frame(c, {"cycle_index": [1] * len(t) + [1, 2], "step_index": [1] * (len(t) + 2),
                   "test_time": t + [2000.0, 3000.0],
                   "voltage": v + [3.0, 3.2], "current": i + [-1.0, -1.0],
                   "charge_capacity": q + [5.0, 0.0], "discharge_capacity": [0.0] * (len(t) + 2),
                   "charge_energy": [1.0] * (len(t) + 2), "discharge_energy": [1.0] * (len(t) + 2), "internal_resistance": [0.1] * (len(t) + 2),
                   "temperature": [25.0] * (len(t) + 2),
                   "date_time_iso": ["2020-01-01T00:00:00+00:00"] * (len(t) + 2)})
    dp = make_datapath(df)
    s = dp.summarize_cycles()
    c.require("the complete cycle is summarised", len(s) == 1)
    if len(s) != 1:
        return
    k = cv_start(c, t, v, i, 1, 1e-5, 1e-4)
    if k is None:
        return
    c.cover("found")
    first = max(k - 1, 0)
    c.require("CV_time", close(s["CV_time"].iloc[0], t[-1] - t[first], 1e-2))
    c.require("CV_current", close(s["CV_current"].iloc[0], i[-1], 1e-3))
    c.require("CV_capacity", close(s["CV_capacity"].iloc[0], q[-1] - q[first], 1e-3))


def diag_summary(c):
    """diagnostic summary: CV metrics of the first step (lowest step number) of the cycle."""
    from beep.structure.diagnostic import DiagnosticConfig
    t, v, i, q = series(c, 4)
    df = frame(c, {"cycle_index": [1, 1, 1, 1, 1, 2], "step_index": [3, 3, 3, 3, 8, 3],
                   "test_time": t + [2000.0, 3000.0],
                   "voltage": v + [3.0, 3.2], "current": i + [-1.0, -1.0],
                   "charge_capacity": q + [5.0, 1.0], "discharge_capacity": [1.0] * 6,
                   "charge_energy": [1.0] * 6, "discharge_energy": [1.0] * 6, "internal_resistance": [0.1] * 6,
                   "temperature": [25.0] * 6,
                   "date_time_iso": ["2020-01-01T00:00:00+00:00"] * 6})
    dp = make_datapath(df)
    dp.diagnostic = DiagnosticConfig({"rpt": [1]})
    s = dp.summarize_diagnostic()
    c.require("one diagnostic cycle", len(s) == 1)
    if len(s) != 1:
        return
    k = cv_start(c, t, v, i, 1, 1e-5, 1e-4)
    if k is None:
        return
    c.cover("found")
    first = max(k - 1, 0)
    c.require("CV_time", close(s["CV_time"].iloc[0], t[-1] - t[first], 1e-2))
    c.require("CV_current", close(s["CV_current"].iloc[0], i[-1], 1e-3))
    c.require("CV_capacity", close(s["CV_capacity"].iloc[0], q[-1] - q[first], 1e-3))


def pauses(c):
    from beep.structure import base as B
    n = c.params["n"]
    thr = c.int("thr", 1, 10000)
    t = [c.int(f"t{k}", 0, 100000) for k in range(n)]
    for a, b in zip(t, t[1:]):
        c.assume(b >= a)
    df = frame(c, {"date_time_iso": [stamp(c, x) for x in t]})
    got = B.get_max_paused_over_threshold(df, thr) if c.bool("explicit") else \
        B.get_max_paused_over_threshold(df)
    if not c.bool("explicit"):
        thr = 3600
    g = smax([b - a for a, b in zip(t, t[1:])]) if n > 1 else 0
    c.cover("paused" if n > 1 else "single", g > thr if n > 1 else True)
    c.require("longest gap above the threshold, else 0", close(got, ite(g > thr, g, 0), 0.01))


def harnesses(tier):
    hs = []
    for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)):
        hs.append(dict(name=f"segment_n{n}", fn=segment, params=dict(n=n), weight=n))
    hs.append(dict(name="segment_tols", fn=segment, params=dict(n=4, tols=(2, 0.1, 0.05)), weight=3))
    hs.append(dict(name="in_summary", fn=in_summary, params=dict(n=3 if tier == "quick" else 4), weight=3, max_s=600))
    hs.append(dict(name="diag_summary", fn=diag_summary, weight=3))
    for n in (1, 2, 3):
        hs.append(dict(name=f"pauses_n{n}", fn=pauses, params=dict(n=n), patches=stamp_patches))
    return hs
