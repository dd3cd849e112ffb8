"""P02: interpolation is faithful."""
from .common import *
from .spec import lin, grid

BOUNDS = {"quick": "2-3 measured rows, 2-3 grid points, axis range, axis values and column values all symbolic",
          "thorough": "2-4 measured rows, 2-4 grid points"}
OUTSIDE = ("more rows or grid points; more than one missing value; dates of the date axis other than the "
           "enumerated ones; non-monotonic axis")
ASSUMPTIONS = ["measurements along the axis are strictly monotonic (documented precondition), except in "
               "the 'ties' harness"]


def _frame(c, n, inc, lo=-10, hi=10, names=("charge_capacity", "current")):
    x = [c.real(f"x{i}", lo, hi) for i in range(n)]
    for a, b in zip(x, x[1:]):
        c.assume(b > a + 1e-5 if inc else b < a - 1e-5)
    ys = {k: [c.real(f"{k}{i}", -10, 10) for i in range(n)] for k in names}
    return x, ys


def faithful(c):
    from beep.structure.base import interpolate_df
    n, m, inc = c.params["n"], c.params["m"], c.params["inc"]
    x, ys = _frame(c, n, inc)
    extra = [c.real(f"e{i}", -10, 10) for i in range(n)]
    ax = c.params.get("axis", "voltage")
    df = frame(c, {ax: x, **ys, "unrelated": extra})
    if c.params["range"]:
        lo = c.real("lo", -12, 12)
        hi = c.real("hi", -12, 12)
        c.assume(hi > lo + 1e-5)
        rng = [lo, hi]
    else:
        lo, hi = (x[0], x[-1]) if inc else (x[-1], x[0])
        rng = None
    snap = snapshot(df)
    r = interpolate_df(df, ax, field_range=rng, columns=list(ys), resolution=m)
    for l, t in same_frame(df, snap):
        c.require("input: " + l, t)
    c.require("exactly the requested columns", sorted(r.columns) == sorted([ax] + list(ys)))
    c.require("as many rows as the resolution", len(r) == m)
    if len(r) != m or sorted(r.columns) != sorted([ax] + list(ys)):
        return
    xs = x if inc else x[::-1]
    for i, g in enumerate(grid(lo, hi, m)):
        c.require(f"uniform grid {i}", close(r[ax].iloc[i], g, 1e-6))
        for k, y in ys.items():
            y = y if inc else y[::-1]
            got = pyval(r[k].iloc[i])
            if g < xs[0]:
                c.cover("below")
            elif g > xs[-1]:
                c.cover("above")
            else:
                c.cover("inside")
            c.require(f"{k} at grid point {i}", lin(g, xs, y)(got, 1e-5))


def ties(c):
    """repeated axis values: still one row per grid point, and no invented values."""
    from beep.structure.base import interpolate_df
    n, m = 3, c.params["m"]
    x = [c.real(f"x{i}", 0, 10) for i in range(n)]
    c.assume(all_of(x[0] <= x[1], x[1] <= x[2]))
    y = [c.real(f"y{i}", -10, 10) for i in range(n)]
    df = frame(c, {"voltage": x, "current": y})
    lo, hi = 1.0, 3.0
    r = interpolate_df(df, "voltage", field_range=[lo, hi], columns=["current"], resolution=m)
    c.require("one row per grid point", len(r) == m)
    if len(r) != m:
        return
    for i, g in enumerate(grid(lo, hi, m)):
        c.require(f"uniform grid {i}", close(r["voltage"].iloc[i], g, 1e-6))
        got = pyval(r["current"].iloc[i])
        if not is_nan(got):
            c.cover("value")
            c.require("within the measured values", all_of(got >= smin(y) - 1e-6, got <= smax(y) + 1e-6))
        else:
            c.require("missing only below the data", x[0] > g)


def date_axis(c):
    """interpolation along wall-clock time: the grid spans first to last date evenly."""
    from beep.structure.base import interpolate_df
    secs, m = c.params["secs"], c.params["m"]
    t0 = pd.Timestamp("2020-02-28T23:59:30+00:00")
    when = [t0 + pd.Timedelta(seconds=s) for s in secs]
    text = [w.isoformat() for w in when] if c.bool("text") else when
    ys = {k: [c.real(f"{k}{i}", -10, 10) for i in range(len(secs))] for k in ("charge_capacity", "voltage")}
    df = frame(c, {"date_time_iso": text, **ys})
    snap = snapshot(df)
    r = interpolate_df(df, "date_time_iso", columns=list(ys), resolution=m)
    for l, t in same_frame(df, snap):
        c.require("input: " + l, t)
    c.require("exactly the requested columns", sorted(r.columns) == sorted(["date_time_iso"] + list(ys)))
    c.require("as many rows as the resolution", len(r) == m)
    if len(r) != m or sorted(r.columns) != sorted(["date_time_iso"] + list(ys)):
        return
    for i, g in enumerate(grid(0.0, float(secs[-1]), m)):
        got = (pd.Timestamp(r["date_time_iso"].iloc[i]) - t0).total_seconds()
        c.require(f"uniform grid {i}", abs(got - g) < 1e-6)
        for k, y in ys.items():
            c.cover("inside")
            c.require(f"{k} at grid point {i}", lin(g, [float(s) for s in secs], y)(pyval(r[k].iloc[i]), 1e-5))


def gaps(c):
    """a missing measurement: the value there follows from the measurements around it, and the other
    columns are unaffected."""
    from beep.structure.base import interpolate_df
    n, m, inc = c.params["n"], c.params["m"], c.params["inc"]
    x, ys = _frame(c, n, inc)
    hole = c.choice("hole", list(range(n)))
    full = list(ys["current"])
    ys["current"] = [float("nan") if i == hole else v for i, v in enumerate(full)]
    df = frame(c, {"voltage": x, **ys})
    lo = c.real("lo", -12, 12)
    hi = c.real("hi", -12, 12)
    c.assume(hi > lo + 1e-5)
    r = interpolate_df(df, "voltage", field_range=[lo, hi], columns=list(ys), resolution=m)
    c.require("as many rows as the resolution", len(r) == m)
    if len(r) != m:
        return
    o = list(range(n)) if inc else list(range(n))[::-1]
    for i, g in enumerate(grid(lo, hi, m)):
        c.require(f"whole column at grid point {i}",
                  lin(g, [x[j] for j in o], [ys["charge_capacity"][j] for j in o])(
                      pyval(r["charge_capacity"].iloc[i]), 1e-5))
        k = [j for j in o if j != hole]
        c.cover("gap")
        c.require(f"column with a gap at grid point {i}",
                  lin(g, [x[j] for j in k], [full[j] for j in k])(pyval(r["current"].iloc[i]), 1e-5))


def harnesses(tier):
    hs = []
    shapes = [(2, 3), (3, 2), (3, 3)] if tier == "quick" else [(2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 4), (4, 4)]
    for n, m in shapes:
        for inc in (True, False):
            hs.append(dict(name=f"faithful_n{n}_m{m}_{'inc' if inc else 'dec'}", fn=faithful,
                           params=dict(n=n, m=m, inc=inc, range=True), weight=n * m))
    for inc in (True, False):
        hs.append(dict(name=f"own_range_{inc}", fn=faithful, params=dict(n=3, m=3, inc=inc, range=False), weight=5))
    hs.append(dict(name="axis_test_time", fn=faithful,
                   params=dict(n=2, m=3, inc=True, range=True, axis="test_time"), weight=5))
    for secs in ([0, 10], [0, 8, 40], [0, 7, 9, 60]) if tier == "quick" else ([0, 10], [0, 8, 40], [0, 7, 9, 60], [0, 1, 2, 3, 86400]):
        hs.append(dict(name=f"date_axis_{len(secs)}", fn=date_axis, params=dict(secs=secs, m=4), weight=3))
    for inc in (True, False):
        hs.append(dict(name=f"gaps_{inc}", fn=gaps, params=dict(n=3, m=2, inc=inc), weight=6))
        if tier == "thorough":
            hs.append(dict(name=f"gaps_4_{inc}", fn=gaps, params=dict(n=4, m=2, inc=inc), weight=9))
    hs.append(dict(name="ties", fn=ties, params=dict(m=3 if tier == "thorough" else 2)))
    return hs
