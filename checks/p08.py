"""P08: cycle life and capacity thresholds."""
from .common import *

BOUNDS = {"quick": "summaries of 1-4 cycles, all capacities symbolic, median window of 2-3 cycles",
          "thorough": "summaries of 1-6 cycles"}
OUTSIDE = "longer summaries; NaN capacities"
ASSUMPTIONS = ["the summary is indexed by cycle number as summarize_cycles returns it"]


def datapath(c, q, first, col="discharge_capacity"):
    dp = make_datapath(pd.DataFrame({"cycle_index": [1]}))
    s = frame(c, {"cycle_index": list(range(first, first + len(q))), col: q})
    s.index = s["cycle_index"].values
    dp.structured_summary = s
    return dp


def reference(c, q, cutoff):
    if len(q) > cutoff:
        w = patches.l_sorted(q[:cutoff]) if c.symbolic else sorted(q[:cutoff])
        n = cutoff
        return w[n // 2] if n % 2 else (w[n // 2 - 1] + w[n // 2]) / 2
    return 1.1


def life(q, ref, thr, first):
    """(value, decided): first cycle at or below thr*ref when the run ends there, else n+1."""
    n = len(q)
    if q[-1] <= thr * ref:
        for k in range(n):
            if q[k] <= thr * ref:
                return first + k
    return n + 1


def cycle_life(c):
    n = c.params["n"]
    first = c.params["first"]
    q = [c.real(f"q{i}", 0.1, 2) for i in range(n)]
    thr = c.real("thr", 0.3, 0.99)
    cutoff = c.params["cutoff"]
    dp = datapath(c, q, first)
    ref = reference(c, q, cutoff)
    # stay clear of floating-point ties at the threshold unless the tie is exact by construction
    got = dp.get_cycle_life(n_cycles_cutoff=cutoff, threshold=thr)
    exp = life(q, ref, thr, first)
    c.cover("reached" if q[-1] <= thr * ref else "not reached")
    c.require("cycle life", int(got) == exp)


def thresholds(c):
    n = c.params["n"]
    q = [c.real(f"q{i}", 0.3, 1.3) for i in range(n)]
    dp = datapath(c, q, 1)
    hi, lo, step = c.params["grid"]
    r = dp.capacities_to_cycles(thresh_max_cap=hi, thresh_min_cap=lo, interval_cap=step)
    ths = [round(hi - i * step, 2) for i in range(len(c.params["names"]))]
    c.require("one column per threshold", [str(x) for x in r.columns] == c.params["names"])
    c.require("one row", len(r) == 1)
    if len(r.columns) != len(ths):
        return
    lives = [int(r.iloc[0, i]) for i in range(len(ths))]
    for i, t in enumerate(ths):
        for v in q:
            c.assume(any_of(v > t * 1.1 + 1e-6, v < t * 1.1 - 1e-6))
        c.require(f"life at {t}", lives[i] == life(q, 1.1, t, 1))
    c.cover("reached")


def at_cycles(c):
    n = c.params["n"]
    q = [c.real(f"q{i}", 0.1, 2) for i in range(n)]
    dp = datapath(c, q, c.params["first"])
    a, b, s = c.params["grid"]
    r = dp.cycles_to_capacities(cycle_min=a, cycle_max=b, cycle_interval=s)
    want = list(range(a, b, s))
    c.require("columns", [str(x) for x in r.columns] == [f"cycle_{k}" for k in want])
    if len(r.columns) != len(want):
        return
    for i, k in enumerate(want):
        c.require(f"capacity at cycle position {k}", close(r.iloc[0, i], q[k] if k < n else 0.0))
    c.cover("reached")


def gate(c):
    """derived quantities need a structured datapath."""
    dp = make_datapath(pd.DataFrame({"cycle_index": [1]}))
    for f in (dp.get_cycle_life, dp.cycles_to_capacities, dp.capacities_to_cycles):
        bad, _ = raises((RuntimeError,), f)
        c.require("refused before structuring", bad)
    c.require("not structured", not dp.is_structured)
    c.cover("reached")


def harnesses(tier):
    hs = []
    for n, cut, first in ([(1, 40, 0), (3, 2, 1), (3, 40, 1), (4, 3, 0), (3, 3, 1), (2, 2, 0)] if tier == "quick" else
                          [(1, 40, 0), (2, 40, 0), (3, 2, 1), (3, 40, 1), (4, 3, 0), (5, 4, 1), (6, 5, 0), (3, 3, 1), (4, 4, 0), (5, 6, 2)]):
        hs.append(dict(name=f"life_n{n}_c{cut}_f{first}", fn=cycle_life, params=dict(n=n, cutoff=cut, first=first)))
    hs.append(dict(name="thresholds", fn=thresholds,
                   params=dict(n=2, grid=(0.95, 0.75, 0.05),
                               names=["capacity_0.95", "capacity_0.9", "capacity_0.85", "capacity_0.8"])))
    hs.append(dict(name="thresholds_default", fn=thresholds,
                   params=dict(n=1, grid=(0.98, 0.78, 0.03),
                               names=[f"capacity_{x}" for x in (0.98, 0.95, 0.92, 0.89, 0.86, 0.83, 0.8)])))
    hs.append(dict(name="at_cycles", fn=at_cycles, params=dict(n=4, first=1, grid=(1, 7, 2))))
    hs.append(dict(name="at_cycles0", fn=at_cycles, params=dict(n=3, first=0, grid=(0, 3, 1))))
    hs.append(dict(name="gate", fn=gate))
    return hs
