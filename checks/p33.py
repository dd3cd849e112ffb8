"""P33: relative electrode analysis (first generation): matching, degradation modes, derivatives, electrode values, features."""
import types
import scipy.interpolate
import scipy.spatial.distance as _dist
from .feat import *
from .cli import stubs, raises
from . import p32
from .p32 import grid, module, curves, electrode, spread, same_missing, slope

BOUNDS = {"all": "electrode curves of 5 points (thorough 6; the code's 1001-point grids are coarsened to as many) with symbolic voltages on one "
                 "electrode, several concrete capacity ratios, offsets and degradations; derivatives of 4 symbolic points; electrode values of "
                 "4-point curves; 3 diagnostics"}
OUTSIDE = ("which parameters scipy's optimiser finds; scipy's distances and quadratic splines (used as oracle); electrode pairs that do not make a "
           "cell within the voltage limits; blended anodes other than in blend_electrodes itself; exactness of the grid beyond the coarsened size; plots")
ASSUMPTIONS = ["positive electrode voltage rises and negative electrode voltage falls with state of charge",
               "differential_evolution and euclidean are stand-ins that record what they are given",
               "cell voltages are at least 1e-6 away from the limits and from ties of nearest points"]


def nan(v):
    return is_nan(v) is True


def at(x, xs, ys, lo=float("nan"), hi=float("nan")):
    """piecewise linear; lo and hi outside; missing next to a missing point"""
    if x < xs[0]:
        return lo
    if x > xs[-1]:
        return hi
    for x0, y0 in zip(xs, ys):
        if x == x0:
            return y0
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            if nan(ys[i]) or nan(ys[i + 1]):
                return float("nan")
            return ys[i] + (ys[i + 1] - ys[i]) * ((x - xs[i]) / (xs[i + 1] - xs[i]))


def analysis(M, cycle_type="rpt_0.2C", step_type=0):
    K = M.IntracellAnalysis
    ia = K.__new__(K)
    ia.pe_pristine = ia.ne_1_pristine = ia.ne_2_pristine_pos = ia.ne_2_pristine_neg = pd.DataFrame()
    ia.cycle_type, ia.step_type, ia.capacity_col = cycle_type, step_type, "charge_capacity"
    return ia


def nearest(c, vals, z):
    """index of the known value nearest z; no ties"""
    k = [i for i, v in enumerate(vals) if not nan(v)]
    best = k[0]
    for i in k[1:]:
        a, b = abs(vals[i] - z), abs(vals[best] - z)
        c.assume(any_of([a < b - 1e-6, a > b + 1e-6]))
        if bool(a < b):
            best = i
    return best


def clear(c, v, *zs):
    for z in zs:
        c.assume(any_of([v < z - 1e-6, v > z + 1e-6]))


def minus(a, b):
    return float("nan") if nan(a) or nan(b) else a - b


# ------------------------------------------------------------------ matching of fresh electrodes
def matched(c, pe, ne, soc, ratio, offset):
    sp = [s * ratio + offset for s in soc]
    n = len(soc)
    q = spread(min(sp[0], soc[0]), max(sp[-1], soc[-1]), n)
    vp, vn = [at(x, sp, pe) for x in q], [at(x, soc, ne) for x in q]
    d = [minus(a, b) for a, b in zip(vp, vn)]
    for v in d:
        if not nan(v):
            clear(c, v, 2.7, 4.2)
    if all(nan(v) for v in d):
        return None
    zero = q[nearest(c, d, 2.7)]
    pts = [(x - zero, v) for x, v in zip(q, d) if not nan(v) and bool(v > 2.7) and bool(v < 4.2)]
    if len(pts) < 3:
        return None
    top = pts[-1][0]
    return [(x - zero) / top * 100 for x in q], vp, vn, [(x / top * 100, v) for x, v in pts]


def initial(c):
    M = module(1)
    n = c.params["n"]
    ratio, offset = c.choice("case", [(1.0, 0.0), (1.25, -12.5), (0.75, 12.5), (1.0, -25.0)][:c.params["cases"]])
    pe, ne, soc = curves(c, n, sym=(c.params["sym"],))
    if c.params["sym"] == "pe":
        ne = [0.875, 0.5, 0.25, 0.125, 0.0625, 0.03125][:n]
    else:
        pe = [3.0, 3.5, 3.75, 4.0, 4.25, 4.3125][:n]
    want = matched(c, pe, ne, soc, ratio, offset)
    if want is None:
        return
    real_s, real_v = [1.0, 40.0, 75.0, 99.0], [2.75, c.real("rv1", 2.7, 4.2), 3.75, 4.125]
    P, N, R = electrode(c, soc, pe), electrode(c, soc, ne), frame(c, {"SOC_aligned": real_s, "Voltage_aligned": real_v})
    ia = analysis(M)
    ia.pe_pristine, ia.ne_1_pristine = P, N
    before = [snapshot(x) for x in (P, N, R)]
    with grid(n):
        a, b, r, e = ia.halfcell_initial_matching_v2([ratio, offset], R, P, N, pd.DataFrame(), pd.DataFrame())
    q, vp, vn, pts = want
    for tag, got, v in (("positive", a, vp), ("negative", b, vn)):
        same_missing(c, f"{tag} electrode relative to the cell's range", got["SOC_aligned"], q)
        same_missing(c, f"{tag} electrode voltage", got["Voltage_aligned"], v)
    g = spread(0.0, 100.0, n)
    same_missing(c, "emulated grid", e["SOC_aligned"], g)
    same_missing(c, "real grid", r["SOC_aligned"], g)
    same_missing(c, "real voltages, at the limits outside what was measured", r["Voltage_aligned"], [at(x, real_s, real_v, 2.7, 4.2) for x in g])
    f = scipy.interpolate.interp1d([s for s, _ in pts], frame(c, {"v": [v for _, v in pts]})["v"], bounds_error=False,
                                   fill_value="extrapolate", kind="quadratic")
    same_missing(c, "emulated cell is the difference of the electrodes within the limits", e["Voltage_aligned"], list(f(np.array(g))), 1e-6)
    for x, s, tag in ((P, before[0], "positive"), (N, before[1], "negative"), (R, before[2], "real")):
        for l, t in same_frame(x, s):
            c.require(f"{tag} curve given: {l}", t)
    c.cover("reached")


# ------------------------------------------------------------------ degradation
DEG = [(0.0, 0.0, 0.0), (10.0, 0.0, 0.0), (0.0, 25.0, 0.0), (0.0, 0.0, 25.0), (-5.0, 12.5, -12.5), (5.0, 50.0, 25.0)]


def pair(c, n, gap, known=False):
    """matched electrodes on a common grid, one of them with symbolic voltages"""
    soc = c.choice("soc", [[-25.0, 12.5, 50.0, 87.5, 125.0, 162.5][:n], [0.0, 25.0, 50.0, 75.0, 100.0, 125.0][:n]])
    if c.params["sym"] == "pe":
        pe, ne, _ = curves(c, n, sym=("pe",))
        ne = [1.0, 0.5, 0.25, 0.125, 0.0625, 0.03125][:n]
    else:
        _, ne, _ = curves(c, n, sym=("ne",))
        pe = [3.25, 3.5, 3.75, 4.125, 4.3125, 4.375][:n]
    pe, ne = list(pe), list(ne)
    if gap == "pe":
        pe[0] = float("nan")
    if gap == "ne":
        ne[-1] = float("nan")
    d = [minus(a, b) for a, b in zip(pe, ne)]
    first = [v for v in d if not nan(v)][0]
    if known:
        c.assume(first < 2.2)
    else:
        c.assume(first > 2.7)          # below it, see the known finding
    return soc, pe, ne, d


def degraded(c, soc, pe, ne, d, lli, lam_pe, lam_ne):
    up, low = soc[nearest(c, d, 4.2)], soc[nearest(c, d, 2.7)]
    sp = [s * (1 - lam_pe / 100) + lam_pe * up / 100 for s in soc]
    sn = [s * (1 - lam_ne / 100) + lli + lam_ne * low / 100 for s in soc]
    n = len(soc)
    q = spread(min(sp[0], sn[0]), max(sp[-1], sn[-1]), n)
    return q, [at(x, sp, pe) for x in q], [at(x, sn, ne) for x in q]


def degrade(c):
    M = module(1)
    n = c.params["n"]
    lli, lp, ln = c.choice("case", DEG)
    soc, pe, ne, d = pair(c, n, c.choice("gap", ["no", "pe", "ne"]))
    q, vp, vn = degraded(c, soc, pe, ne, d, lli, lp, ln)
    P, N = electrode(c, soc, pe), electrode(c, soc, ne)
    b = [snapshot(P), snapshot(N)]
    with grid(n):
        x, y = analysis(M)._impose_degradation(P, N, pd.DataFrame(), pd.DataFrame(), lli=lli, lam_pe=lp, lam_ne=ln)
    for tag, got, v in (("positive", x, vp), ("negative", y, vn)):
        same_missing(c, f"{tag} electrode grid", got["SOC_aligned"], q)
        same_missing(c, f"{tag} electrode shrinks about its lock and shifts", got["Voltage_aligned"], v)
    for l, t in same_frame(P, b[0]) + same_frame(N, b[1]):
        c.require(f"electrodes given: {l}", t)
    c.cover("reached")


def lock(c):
    """the known finding: the lock of the negative electrode when the electrodes overlap below the lower limit"""
    M = module(1)
    n = 5
    soc = [0.0, 25.0, 50.0, 75.0, 100.0]
    pe = [3.0, 3.5, 3.75, 4.0, 4.25]
    ne = [c.real("ne0", 0.8, 1.5), 0.75, 0.25, 0.125, 0.0625]
    d = [minus(a, b) for a, b in zip(pe, ne)]
    q, vp, vn = degraded(c, soc, pe, ne, d, 0.0, 0.0, 25.0)
    with grid(n):
        x, y = analysis(M)._impose_degradation(electrode(c, soc, pe), electrode(c, soc, ne), pd.DataFrame(), pd.DataFrame(), lam_ne=25.0)
    same_missing(c, "negative electrode grid", y["SOC_aligned"], q)
    same_missing(c, "negative electrode shrinks about where the cell meets its lower limit", y["Voltage_aligned"], vn)


def match(c):
    """halfcell_degradation_matching_v3: degraded electrodes and cell, zeroed together, next to the real cell"""
    M = module(1)
    n = c.params["n"]
    lli, lp, ln = c.choice("case", [DEG[0], DEG[1], DEG[4]])
    soc, pe, ne, d = pair(c, n, c.choice("gap", ["no", "ne"]))
    q, vp, vn = degraded(c, soc, pe, ne, d, lli, lp, ln)
    diff = [minus(a, b) for a, b in zip(vp, vn)]
    known = [i for i in range(n) if not nan(diff[i])]
    if len(known) < 2:
        return
    zero = q[known[0]]
    real_s = c.choice("real", [[0.0, 25.0, 50.0, 75.0], [0.0, 12.5, 50.0, 100.0]])
    real_v = [2.75, c.real("rv1", 2.7, 4.2), 3.5, c.real("rv3", 2.7, 4.2)]
    if c.choice("missing real point", [False, True]):
        real_v[-1] = float("nan")
    P, N, R = electrode(c, soc, pe), electrode(c, soc, ne), frame(c, {"Voltage_aligned": real_v, "SOC_aligned": real_s})
    before = [snapshot(x) for x in (P, N, R)]
    with grid(n):
        a, b, r, e = analysis(M).halfcell_degradation_matching_v3([lli, lp, ln, 0.5], P, N, pd.DataFrame(), pd.DataFrame(), R)
    for tag, got, v in (("positive", a, vp), ("negative", b, vn)):
        same_missing(c, f"{tag} electrode is zeroed with the cell", got["SOC_aligned"], [x - zero for x in q])
        same_missing(c, f"{tag} electrode voltage", got["Voltage_aligned"], v)
    k = [(x, v) for x, v in zip(real_s, real_v) if not nan(v)]
    g = spread(k[0][0], k[-1][0], n)
    same_missing(c, "real grid", r["SOC_aligned"], g)
    same_missing(c, "emulated grid", e["SOC_aligned"], g)
    same_missing(c, "real voltages", r["Voltage_aligned"], [at(x, [p for p, _ in k], [v for _, v in k]) for x in g])
    qs, vs = [q[i] - zero for i in known], [diff[i] for i in known]
    same_missing(c, "emulated voltages", e["Voltage_aligned"], [at(x, qs, vs) for x in g])
    for f, s, tag in ((P, before[0], "positive"), (N, before[1], "negative"), (R, before[2], "real")):
        for l, t in same_frame(f, s):
            c.require(f"{tag} curve given: {l}", t)
    c.cover("shifted", zero != 0)


def v_over_soc(c):
    M = module(1)
    n = 4
    s = [0.0, 25.0, 50.0, 100.0]
    rv, ev = [c.real(f"r{i}", 2.7, 4.2) for i in range(n)], [c.real(f"e{i}", 2.7, 4.2) for i in range(n)]
    miss = c.choice("missing", ["none", "real", "emulated"])
    if miss == "real":
        rv[-1] = float("nan")
    if miss == "emulated":
        ev[-1] = float("nan")
    R, E = frame(c, {"SOC_aligned": s, "Voltage_aligned": rv}), frame(c, {"SOC_aligned": s, "Voltage_aligned": ev})
    ia = analysis(M)
    seen, p, q = [], object(), object()
    ia.halfcell_degradation_matching_v3 = lambda x, *a: seen.append((x, a)) or (p, q, R, E)
    m = 5
    with grid(m):
        out = ia.get_V_over_SOC_from_degradation_matching([1], "a")
    c.require("the parameters are passed on", seen == [([1], ("a",))] and out[0] is p and out[1] is q)
    k = [i for i in range(n) if not nan(rv[i])]
    g = spread(s[0], s[k[-1]], m)
    for tag, got, v in (("real", out[2], rv), ("emulated", out[3], ev)):
        same_missing(c, f"{tag} grid", got["SOC_aligned"], g)
        same_missing(c, f"{tag} voltages", got["Voltage_aligned"], [at(x, [s[i] for i in k], [v[i] for i in k]) for x in g])
    c.cover("reached")


# ------------------------------------------------------------------ derivatives
def ewm(vals, alpha):
    return p32.ewm(vals, (1 - alpha) / alpha)


KINDS = {   # method: (source, what, over, smoothed)
    "get_dQdV_over_Q_from_halfcell_initial_matching": ("initial", "dQdV", "q", False),
    "get_dQdV_over_V_from_halfcell_initial_matching": ("initial", "dQdV", "v", True),
    "get_dVdQ_over_Q_from_halfcell_initial_matching": ("initial", "dVdQ", "q", False),
    "get_dVdQ_over_V_from_halfcell_initial_matching": ("initial", "dVdQ", "v", False),
    "get_dQdV_over_V_from_degradation_matching": ("degraded", "dQdV", "v", True),
    "get_dVdQ_over_SOC_from_degradation_matching": ("degraded", "dVdQ", "q", True),
}


def derivative(c):
    M = module(1)
    n, m = 4, 4
    name = c.params["name"]
    source, what, over, smooth = KINDS[name]
    if what == "dVdQ" and over == "q":
        sr = se = c.choice("grid", [[0.0, 25.0, 50.0, 100.0], [12.5, 25.0, 75.0, 100.0]])
        vr, ve = [c.real(f"vr{i}", 2.7, 4.2) for i in range(n)], [c.real(f"ve{i}", 2.7, 4.2) for i in range(n)]
        if source == "degraded" and c.choice("missing", [False, True]):
            ve[-1] = float("nan")
    else:
        vr = c.choice("real voltages", [[2.75, 3.0, 3.5, 4.125], [2.7, 3.25, 3.75, 4.2]])
        ve = c.choice("emulated voltages", [[2.875, 3.0, 3.5, 4.0], [2.7, 3.5, 3.75, 4.2]])
        if what == "dQdV":
            sr, se = [c.real(f"s{i}", 0, 100) for i in range(n)], [c.real(f"t{i}", 0, 100) for i in range(n)]
        else:                                  # a quotient of the symbolic one
            k = c.choice("free", list(range(n)))
            sr, se = [0.0, 25.0, 50.0, 100.0], [12.5, 25.0, 75.0, 100.0]
            sr[k], se[k] = c.real(f"s{k}", 0, 100), c.real(f"t{k}", 0, 100)
        for z in (sr, se):
            for a, b in zip(z, z[1:]):
                if symbolic(a) or symbolic(b) or not c.symbolic:
                    c.assume(b >= a + (1 if what == "dVdQ" else 0))
    R, E = frame(c, {"SOC_aligned": sr, "Voltage_aligned": vr}), frame(c, {"SOC_aligned": se, "Voltage_aligned": ve})
    b = [snapshot(R), snapshot(E)]
    p, q = object(), object()
    ia = analysis(M)
    seen = []
    f = lambda x, *a: seen.append((x, a)) or (p, q, R, E)
    setattr(ia, "halfcell_initial_matching_v2" if source == "initial" else "halfcell_degradation_matching_v3", f)
    x = [1.0, 2.0, 0.5, 0.25]
    with grid(m):
        out = getattr(ia, name)(x, "p")
    c.require("the parameters are passed on", seen == [(x, ("p",))] and len(out) == 6)
    c.require("electrodes and matched curves are handed out", out[0] is p and out[1] is q and out[4] is R and out[5] is E)
    names = ("SOC", "Voltage") if source == "initial" and over == "v" else ("SOC_aligned", "Voltage_aligned")
    for tag, got, src, alpha in (("real", out[2], R, x[-2]), ("emulated", out[3], E, x[-1])):
        s, v = list(src["SOC_aligned"]), list(src["Voltage_aligned"])
        d = slope(s, v) if what == "dQdV" else slope(v, s)
        if smooth:
            d = ewm(d, alpha)
        if over == "q":
            same_missing(c, f"{tag} {what}", got[what], d, 1e-6)
            same_missing(c, f"{tag} state of charge", got[names[0]], s)
            same_missing(c, f"{tag} voltage", got[names[1]], v)
        else:
            g = spread(2.7, 4.2, m)
            same_missing(c, f"{tag} voltage grid", got[names[1]], g)
            same_missing(c, f"{tag} {what} over voltage", got[what], [at(z, v, d, 0.0, 0.0) for z in g], 1e-6)
            same_missing(c, f"{tag} state of charge over voltage", got[names[0]], [at(z, v, s, 0.0, 100.0) for z in g], 1e-6)
    for l, t in same_frame(R, b[0]) + same_frame(E, b[1]):
        c.require(f"curves: {l}", t)
    c.cover("reached")


# ------------------------------------------------------------------ errors
ERRORS = {  # method: (source method, column, weight of a missing point, error of no cell)
    "_get_error_from_halfcell_initial_matching": ("halfcell_initial_matching_v2", "V", 0.01, None),
    "get_error_dQdV_over_Q_from_halfcell_initial_matching": ("get_dQdV_over_Q_from_halfcell_initial_matching", "dQdV", 0.01, None),
    "get_error_dQdV_over_V_from_halfcell_initial_matching": ("get_dQdV_over_V_from_halfcell_initial_matching", "dQdV", 0.01, None),
    "get_error_dVdQ_over_Q_from_halfcell_initial_matching": ("get_dVdQ_over_Q_from_halfcell_initial_matching", "dVdQ", 0.01, None),
    "get_error_dVdQ_over_V_from_halfcell_initial_matching": ("get_dVdQ_over_V_from_halfcell_initial_matching", "dVdQ", 0.01, None),
    "_get_error_from_degradation_matching": ("get_V_over_SOC_from_degradation_matching", "V", 0.001, 100),
    "get_error_dQdV_over_V_from_degradation_matching": ("get_dQdV_over_V_from_degradation_matching", "dQdV", 0.01, 1000),
    "get_error_dVdQ_over_SOC_from_degradation_matching": ("get_dVdQ_over_SOC_from_degradation_matching", "dVdQ", 0.01, 1000),
}


def errors(c):
    M = module(1)
    name = c.choice("error", sorted(ERRORS))
    src, col, weight, none = ERRORS[name]
    n = 3
    s = [0.0, 50.0, 100.0]
    key = "Voltage_aligned" if col == "V" else col
    r, e = [c.real(f"r{i}", -9, 9) for i in range(n)], [c.real(f"e{i}", -9, 9) for i in range(n)]
    miss = c.choice("missing", [0, 1, 2] if col == "V" else [0])
    for i in range(miss):
        e[n - 1 - i] = float("nan")
    R, E = frame(c, {"SOC_aligned": s, key: r}), frame(c, {"SOC_aligned": s, key: e})
    fail = none is not None and c.choice("no cell", [False, True])
    ia = analysis(M)
    seen, given = [], []

    def inner(x, *p):
        seen.append((x, p))
        if fail:
            raise ValueError("no cell")
        return (None, None, R, E) + ((None, None) if col != "V" else ())
    setattr(ia, src, inner)
    D = c.real("distance", 0, 9)
    with stubs([(_dist, "euclidean", lambda a, b, *w: given.append((list(np.asarray(a, dtype=object)), list(np.asarray(b, dtype=object)))) or D)]):
        got = getattr(ia, name)([9], "z")
    c.require("the parameters are passed on", seen == [([9], ("z",))])
    if fail:
        c.require("no cell has the error of no cell", got == none)
        c.cover("fail")
        return
    k = range(n - miss)
    if name == "_get_error_from_degradation_matching":
        wr, we = [z for i in k for z in (s[i], r[i])], [z for i in k for z in (s[i], e[i])]
    else:
        wr, we = [r[i] for i in k], [e[i] for i in k]
    c.require("one distance", len(given) == 1)
    same_missing(c, "real points", given[0][0], wr)
    same_missing(c, "emulated points", given[0][1], we)
    c.require("distance and a weight per missing point", close(got, D + weight * miss, 1e-9))
    c.cover("missing", miss > 0)


# ------------------------------------------------------------------ electrode values
def values(c):
    M = module(1)
    n = c.params["n"]
    if c.params["sym"] == "pe":
        pe, ne = [c.real(f"pe{i}", 2.7, 4.9) for i in range(n)], [0.875, 0.5, 0.25, 0.125, 0.0625][:n]
        for a, b in zip(pe, pe[1:]):
            c.assume(b >= a + 0.03125)
    else:
        pe, ne = c.choice("pe", [[3.0, 3.5, 4.25, 4.3, 4.4][:n], [3.0, 3.75, 4.25, 4.5, 4.6][:n]]), [c.real(f"ne{i}", 0.0, 1.5) for i in range(n)]
        for a, b in zip(ne, ne[1:]):
            c.assume(b <= a - 0.03125)
    gap = c.choice("outside", ["none", "ne starts later", "pe ends earlier"])
    q = c.choice("soc", [[-12.5, 0.0, 50.0, 100.0, 110.0][:n], [0.0, 25.0, 75.0, 125.0, 150.0][:n]])
    pe, ne = list(pe), list(ne)
    if gap == "ne starts later":
        ne[0] = float("nan")
    if gap == "pe ends earlier":
        pe[-1] = float("nan")
    d = [minus(a, b) for a, b in zip(pe, ne)]
    up, low = nearest(c, d, 4.2), nearest(c, d, 2.7)
    P, N = frame(c, {"SOC_aligned": q, "Voltage_aligned": pe}), frame(c, {"SOC_aligned": q, "Voltage_aligned": ne})
    before = [snapshot(P), snapshot(N)]
    got = M.get_halfcell_voltages(P, N)

    def span(v):
        k = [x for x, y in zip(q, v) if not nan(y)]
        return k[0], k[-1]
    want = []
    for vs in (pe, ne):
        a, b = span(vs)
        want += [vs[up], vs[low], (q[up] - a) / (b - a) * 100, (q[low] - a) / (b - a) * 100, b - a]
    a, b = span(d)
    want += [q[up], q[low], b - a]
    names = [f"{e} {k}" for e in ("positive", "negative") for k in ("upper voltage", "lower voltage", "upper soc", "lower soc", "mass")]
    names += ["upper cell soc", "lower cell soc", "lithium"]
    c.require("13 values", len(got) == 13)
    for k, g, w in zip(names, got, want):
        c.require(k, close(g, w, 1e-7))
    for l, t in same_frame(P, before[0]) + same_frame(N, before[1]):
        c.require(f"electrodes given: {l}", t)
    c.cover("reached")


# ------------------------------------------------------------------ profiles of the real cell
def table(c, mine, q, v):
    rows = []
    n = len(q)
    for cy, ty, step in ((2, "rpt_0.2C", 0), (2, "rpt_0.2C", 1), (37, "rpt_0.2C", 0), (37, "rpt_1C", 0), (3, "rpt_1C", 0), (37, "rpt_1C", 1), (3, "rpt_1C", 1)):
        for i in range(n):
            m = mine == (cy, ty, step)
            val = q[i] if m else 5.0 + i
            rows.append(dict(cycle_index=cy, cycle_type=ty, step_type=step, voltage=v[i] if m else 3.0 + 0.1 * i,
                             charge_capacity=val if step == 0 else 4.0, discharge_capacity=0.0 if step == 0 else val))
    return frame(c, {k: [r[k] for r in rows] for k in rows[0]})


def first_profile(c):
    """voltage over the state of charge of the first cycle of the type"""
    M = module(1)
    ctype = c.choice("type", ["rpt_0.2C", "rpt_1C"])
    step = c.choice("step", [0, 1])
    cyc = {"rpt_0.2C": 2, "rpt_1C": 3}[ctype]
    q = c.choice("q", [[0.5, 1.0, 2.0, 3.0], [0.0, 1.0, 2.5, 4.0]])
    v = [c.real(f"v{i}", 2.5, 4.4) for i in range(4)]
    for z in v:
        clear(c, z, 2.7, 4.2)
    df = table(c, (cyc, ctype, step), q, v)
    summ = frame(c, {"cycle_index": [1, 2, 3, 37, 38], "cycle_type": ["reset", "rpt_0.2C", "rpt_1C", "rpt_0.2C", "rpt_1C"]})
    dp = Datapath(diagnostic_data=df, diagnostic_summary=summ)
    unchanged = keep(c, dp)
    pts = [(a, b) for a, b in zip(q, v) if bool(b < 4.2) and bool(b > 2.7)]
    if len(pts) < 2:
        return
    ia = analysis(M, cycle_type=ctype, step_type=step)
    ia.capacity_col = "stale"
    m = 5
    with grid(m):
        A, X = ia.process_beep_cycle_data_for_initial_halfcell_analysis(dp, **({"step_type": step} if step else {}))
    lo, hi = pts[0][0], pts[-1][0]
    soc = [(a - lo) / (hi - lo) * 100 for a, _ in pts]
    g = spread(0.0, 100.0, m)
    cap = "charge_capacity" if step == 0 else "discharge_capacity"
    same_missing(c, "state of charge of the points within the limits", X["SOC"], soc)
    same_missing(c, "their voltage", X["Voltage"], [b for _, b in pts])
    same_missing(c, "their capacity", X[cap], [a for a, _ in pts])
    same_missing(c, "even states of charge", A["SOC_aligned"], g)
    same_missing(c, "voltages", A["Voltage_aligned"], [at(z, soc, [b for _, b in pts]) for z in g])
    unchanged()
    c.cover("cut", len(pts) < 4)


def later_profile(c):
    """voltage of a cycle over the state of charge relative to the first one's capacity"""
    M = module(1)
    ctype = c.choice("type", ["rpt_0.2C", "rpt_1C"])
    cyc = c.choice("cycle", [{"rpt_0.2C": 2, "rpt_1C": 3}[ctype], 37])
    q = c.choice("q", [[0.5, 1.0, 2.0, 3.0], [0.0, 1.0, 2.5, 3.5]])
    v = [c.real(f"v{i}", 2.5, 4.4) for i in range(4)]
    for z in v:
        clear(c, z, 4.2)
    dp = Datapath(diagnostic_data=table(c, (cyc, ctype, 0), q, v))
    unchanged = keep(c, dp)
    top = c.choice("first alignment ends", [100.0, 80.0])
    A = frame(c, {"SOC_aligned": [0.0, 40.0, 80.0, 100.0], "Voltage_aligned": [2.75, 3.5, 4.0, 4.125 if top == 100.0 else float("nan")]})
    I = frame(c, {"charge_capacity": [0.25, 2.0, 4.25], "SOC": [0.0, 43.75, 100.0], "Voltage": [2.75, 3.5, 4.125]})
    pts = [((a - 0.25) / 4.0 * 100, b) for a, b in zip(q, v) if a > 0 and bool(b < 4.2)]
    if len(pts) < 2:
        return
    m = 5
    with grid(m):
        X = analysis(M, cycle_type=ctype).process_beep_cycle_data_for_candidate_halfcell_analysis(dp, A, I, cyc)
    g = spread(0.0, pts[-1][0], m)
    same_missing(c, "even states of charge from zero to the last", X["SOC_aligned"], [z / top * 100 for z in g])
    same_missing(c, "voltages", X["Voltage_aligned"], [at(z, [p for p, _ in pts], [b for _, b in pts], 2.7, 4.2) for z in g])
    unchanged()
    c.cover("cut", len(pts) < 4)


def match2(c):
    """halfcell_degradation_matching_v2: as v3, cut to the limits and placed where the real cell has the emulated cell's lowest voltage"""
    M = module(1)
    n = c.params["n"]
    lli, lp, ln = c.choice("case", [DEG[0], DEG[4], DEG[5]])
    soc, pe, ne, d = pair(c, n, c.choice("gap", ["no", "ne"]))
    q, vp, vn = degraded(c, soc, pe, ne, d, lli, lp, ln)
    diff = [minus(a, b) for a, b in zip(vp, vn)]
    known = [i for i in range(n) if not nan(diff[i])]
    if len(known) < 2:
        return
    for i in known:
        clear(c, diff[i], 2.7, 4.2)
    inside = [i for i in known if bool(diff[i] > 2.7) and bool(diff[i] < 4.2)]
    if len(inside) < 2:
        return
    real_s, real_v = [0.0, 25.0, 50.0, 75.0], [2.75, c.real("rv1", 2.7, 4.2), 3.5, 4.125]
    low = smin([diff[i] for i in known])
    zero = real_s[nearest(c, real_v, low)] - q[known[0]]
    P, N, R = electrode(c, soc, pe), electrode(c, soc, ne), frame(c, {"Voltage_aligned": real_v, "SOC_aligned": real_s})
    with grid(n):
        a, b, r, e = analysis(M).halfcell_degradation_matching_v2([lli, lp, ln], P, N, R)
    for tag, got, v in (("positive", a, vp), ("negative", b, vn)):
        same_missing(c, f"{tag} electrode is placed with the cell", got["SOC_aligned"], [x + zero for x in q])
        same_missing(c, f"{tag} electrode voltage", got["Voltage_aligned"], v)
    qs = [x + zero for x in q]
    g = spread(min(qs[inside[0]], real_s[0]), max(qs[inside[-1]], real_s[-1]), n)
    cut = [diff[i] if i in inside else float("nan") for i in range(n)]
    same_missing(c, "grid of both", r["SOC_aligned"], g)
    same_missing(c, "grid of both, emulated", e["SOC_aligned"], g)
    same_missing(c, "real voltages", r["Voltage_aligned"], [at(x, real_s, real_v) for x in g])
    same_missing(c, "emulated voltages", e["Voltage_aligned"], [at(x, qs, cut) for x in g])
    c.cover("reached")


def robust(c):
    """blends of electrodes that do not share a grid, and of matched electrodes"""
    M = module(1)
    v2 = c.choice("variant", [False, True])
    n = 4
    soc = c.choice("soc", [[0.0, 25.0, 75.0, 100.0], [0.0, 25.0, 50.0, 100.0]] + ([[-25.0, 0.0, 50.0, 75.0]] if v2 else []))
    A = pd.DataFrame({"SOC_aligned": soc, "Voltage_aligned": [1.0, 0.75, 0.25, 0.0]})
    if v2 and c.choice("unmatched", [False, True]):
        soc = soc[:1] + [s + 25 for s in soc[:3]]
        A = pd.DataFrame({"SOC_aligned": soc, "Voltage_aligned": [float("nan"), 1.0, 0.75, 0.0]})
    B = pd.DataFrame({"SOC_aligned": [0.0, 50.0, 100.0], "Voltage_aligned": [0.875, 0.375, 0.125]})
    C = pd.DataFrame({"SOC_aligned": [0.0, 25.0, 100.0], "Voltage_aligned": [0.875, 0.5, 0.125]})
    have = c.choice("materials", ["none", "pos", "neg", "both"])
    x = c.real("x", -0.9, 0.9)
    c.assume(any_of([x > 0.1, x < -0.1]))
    before = [snapshot(z) for z in (A, B, C)]
    none = pd.DataFrame()
    m = 5
    ia = analysis(M)
    with grid(m):
        got = (ia.blend_electrodes_robust_v2 if v2 else ia.blend_electrodes_robust)(
            A, B if have in ("pos", "both") else none, C if have in ("neg", "both") else none, x)
    for z, s in zip((A, B, C), before):
        for l, t in same_frame(z, s):
            c.require(f"materials: {l}", t)
    if have != "both":
        same_missing(c, "one material: voltage", got["Voltage_aligned"], list(A["Voltage_aligned"]))
        same_missing(c, "one material: state of charge", got["SOC_aligned"], soc)
        c.cover("none")
        return
    k = [i for i in range(n) if not np.isnan(A["Voltage_aligned"][i])]
    s, v = [soc[i] for i in k], [A["Voltage_aligned"][i] for i in k]
    if v2:
        s = [(z - s[0]) / (s[-1] - s[0]) * 100 for z in s]
    g = spread(0.0, 100.0, m)
    two = B if x > 0 else C
    with grid(m):
        mix = M.blend_electrodes(pd.DataFrame({"SOC_aligned": g, "Voltage_aligned": [at(z, s, v) for z in g]}),
                                 pd.DataFrame({"SOC_aligned": g, "Voltage_aligned": [at(z, list(two["SOC_aligned"]), list(two["Voltage_aligned"])) for z in g]}),
                                 none, abs(x))
    if not v2:
        for q in ("SOC_aligned", "Voltage_aligned"):
            same_missing(c, f"blend on the common grid: {q}", got[q], list(mix[q]))
    else:
        ms, mv = list(mix["SOC_aligned"]), list(mix["Voltage_aligned"])
        w = iter([at(z, ms, mv) for z in spread(ms[0], ms[-1], len(k))])
        same_missing(c, "matched electrode keeps its states of charge", got["SOC_aligned"], soc)
        same_missing(c, "matched electrode takes the blend's voltages", got["Voltage_aligned"], [next(w) if i in k else float("nan") for i in range(n)])
    c.cover("blended")


def drawn(c):
    """the charge curve of the last cycle of a type; a line per cycle in the plot"""
    M = module(1)
    ctype = c.choice("type", ["rpt_0.2C", "rpt_1C"])
    cyc = c.choice("cycle", [37])
    n = 3
    v, q = [c.real(f"v{i}", 2, 5) for i in range(n)], [c.real(f"q{i}", 0, 5) for i in range(n)]
    df = table(c, (cyc, ctype, 0), q, v)
    df["charge_energy"] = df["charge_capacity"] * 4 + df["cycle_index"]
    df["discharge_energy"] = df["discharge_capacity"] * 3 + df["cycle_index"]
    dp = Datapath(diagnostic_data=df)
    unchanged = keep(c, dp)
    sel = lambda cy, st: [i for i in range(len(df)) if df["cycle_type"][i] == ctype and df["cycle_index"][i] == cy and df["step_type"][i] == st]
    if c.choice("plot", [False, True]):
        var, st = c.choice("x", ["capacity", "energy"]), c.choice("step", [0, 1])
        lines = []
        P = M.plt
        with stubs([(P, "plot", lambda x, y, **k: lines.append((list(x), list(y), k.get("label"))))]):
            fig = M.plot_voltage_curves_for_cell(dp, cycle_type=ctype, x_var=var, step_type=st)
        P.close(fig)
        word = ["charge", "discharge"][st]
        cycles = {"rpt_0.2C": [2, 37], "rpt_1C": [37, 3]}[ctype]
        c.require("a line per cycle", [l[2] for l in lines] == [f"cycle {i} {word}" for i in cycles])
        for i, l in zip(cycles, lines):
            same_missing(c, f"capacity of cycle {i}", l[0], [df[f"{word}_{var}"][j] for j in sel(i, st)])
            same_missing(c, f"voltage of cycle {i}", l[1], [df["voltage"][j] for j in sel(i, st)])
        c.cover("plot")
    else:
        x, y = analysis(M).get_voltage_curves_for_cell(dp, cycle_type=ctype)
        last = {"rpt_0.2C": 37, "rpt_1C": 3}[ctype]
        same_missing(c, "charge energy of the last cycle", x, [df["charge_energy"][j] for j in sel(last, 0)])
        same_missing(c, "voltage of the last cycle", y, [df["voltage"][j] for j in sel(last, 0)])
        c.cover("curve")
    unchanged()


# ------------------------------------------------------------------ wrappers and features
def wrapper(c):
    M = module(1)
    which = c.choice("wrapper", ["init", "values"])
    bounds = c.choice("bounds", [None, ((0, 1), (2, 3))])
    x = [c.real(f"x{i}", -9, 9) for i in range(6)]
    ia = analysis(M)
    el = [object() for _ in range(4)]
    ia.pe_pristine, ia.ne_1_pristine, ia.ne_2_pristine_pos, ia.ne_2_pristine_neg = el
    aligned, prof, dp = object(), object(), object()
    calls = []
    opt = np.array(x, dtype=object if c.symbolic else float)

    def evolution(f, b, args=(), **k):
        calls.append(("fit", f, b, args))
        return types.SimpleNamespace(x=opt, fun=1.0)
    same = lambda a, b: len(a) == len(b) and all(i is j for i, j in zip(a, b))
    kw = {}
    with stubs([(M, "differential_evolution", evolution)]):
        if which == "init":
            four = [object() for _ in range(4)]
            ia.process_beep_cycle_data_for_initial_halfcell_analysis = lambda d, *a, **k: calls.append(("profile", d, a, k)) or (aligned, prof)
            ia.halfcell_initial_matching_v2 = lambda y, *p: calls.append(("match", y, p)) or tuple(four)
            if bounds:
                kw["initial_matching_bounds"] = bounds
            out = ia.intracell_wrapper_init(dp, **kw)
            want_b = bounds or ((0.8, 1.2), (-20.0, 20.0), (1, 1), (0.1, 0.1), (0.1, 0.1))
            k = {z[0]: z for z in calls}
            c.require("one profile, fit and matching", sorted(z[0] for z in calls) == ["fit", "match", "profile"])
            c.require("profile of the cell", k["profile"][1] is dp)
            c.require("fit to the profile", k["fit"][1] == ia._get_error_from_halfcell_initial_matching and tuple(k["fit"][2]) == want_b
                      and same(k["fit"][3], [aligned] + el))
            c.require("electrodes of the parameters found", k["match"][1] is opt and same(k["match"][2], [aligned] + el))
            c.require("profile and matched electrodes", same(out, [aligned, prof, four[0], four[1]]))
        else:
            cand, pm, nm = object(), object(), object()
            six = [object() for _ in range(6)]
            v13 = [c.real(f"h{i}", 0, 200) if i % 4 == 0 else 10.0 + i for i in range(13)]
            ia.process_beep_cycle_data_for_candidate_halfcell_analysis = lambda *a: calls.append(("profile", a)) or cand
            ia.get_dQdV_over_V_from_degradation_matching = lambda y, *p: calls.append(("curves", y, p)) or tuple(six)
            if bounds:
                kw["degradation_bounds"] = bounds
            with stubs([(M, "get_halfcell_voltages", lambda p, n: calls.append(("info", p, n)) or tuple(v13))]):
                loss, profs = ia.intracell_values_wrapper(7, dp, aligned, prof, pm, nm, **kw)
            want_b = bounds or ((-10, 50), (-10, 50), (-10, 50), (1, 1), (0.1, 0.1), (0.1, 0.1))
            k = {z[0]: z for z in calls}
            args = [pm, nm, el[2], el[3], cand]
            c.require("one profile, fit, curves and electrode values", sorted(z[0] for z in calls) == ["curves", "fit", "info", "profile"])
            c.require("profile of the cycle relative to the first", same(k["profile"][1], [dp, aligned, prof, 7]))
            c.require("fit to the profile", k["fit"][1] == ia._get_error_from_degradation_matching and tuple(k["fit"][2]) == want_b and same(k["fit"][3], args))
            c.require("curves of the parameters found", k["curves"][1] is opt and same(k["curves"][2], args))
            c.require("electrode values of these curves", k["info"][1] is six[0] and k["info"][2] is six[1])
            c.require("profile of the cycle handed out", list(profs) == [7] and profs[7] is cand)
            want = x + v13[:10] + [v13[12]]
            c.require("values of the cycle", list(loss) == [7] and len(loss[7]) == len(want))
            if list(loss) == [7] and len(loss[7]) == len(want):
                c.require("parameters and electrode values in order", all_of([close(a, b, 1e-9) for a, b in zip(loss[7], want)]))
    c.cover(which)


NAMES = ['LLI', 'LAM_PE', 'LAM_NE', 'x_NE_2', 'alpha_real', 'alpha_emulated', 'PE_upper_voltage', 'PE_lower_voltage', 'PE_upper_SOC',
         'PE_lower_SOC', 'PE_mass', 'NE_upper_voltage', 'NE_lower_voltage', 'NE_upper_SOC', 'NE_lower_SOC', 'NE_mass', 'Li_mass']


def features(c):
    """one row per diagnostic of the type above the threshold, or the first two in one row"""
    from beep.features import intracell_losses as L
    cls = c.choice("class", [L.IntracellCycles, L.IntracellFeatures])
    n = 3
    types_ = [c.choice(f"type{i}", ["rpt_0.2C", "rpt_1C"]) for i in range(n)] + ["rpt_0.2C"]
    idx = [2, 37, 70, 3]
    T = 4.84 * 0.7
    cap = [c.real(f"cap{i}", 0, 5) for i in range(n)] + [4.0]
    for q in cap[:n]:
        clear(c, q, T)
    ask = c.choice("asked", ["rpt_0.2C", "rpt_1C"])
    mine = [i for i, t, q in zip(idx, types_, cap) if t == ask and bool(q > T)]
    vals = {i: [c.real(f"x{i}_{k}", -9, 9) if k % 6 == 0 else 100.0 * i + k for k in range(len(NAMES))] for i in idx}
    dp = Datapath(diagnostic_summary=frame(c, {"cycle_index": idx, "cycle_type": types_, "discharge_capacity": cap}),
                  diagnostic_data=pd.DataFrame({"cycle_index": idx}))
    unchanged = keep(c, dp)
    calls = []
    init = [object() for _ in range(4)]

    class IA:
        THRESHOLD = T

        def __init__(self, pe, ne, cycle_type="rpt_0.2C", step_type=0, **k):
            calls.append((pe, ne, cycle_type, step_type))
            self.cycle_type, self.step_type = cycle_type, step_type

        def intracell_wrapper_init(self, d, *a, **k):
            c.require("matching of this run", d is dp)
            return tuple(init)

        def intracell_values_wrapper(self, i, d, *a, **k):
            c.require("values of this run, from the matched electrodes", d is dp and len(a) == 4 and all(p is q for p, q in zip(a, init)))
            return {i: list(vals[i])}, {i: object()}
    h = dict(cls.DEFAULT_HYPERPARAMETERS, diagnostic_cycle_type=ask, cathode_file="/x/ca.csv", anode_file="/x/an.csv")
    with stubs([(L, "IntracellAnalysis", IA)]):
        f = cls(dp, h)
        ok, why = f.validate()
        c.require("a run without such a diagnostic is refused", ok == bool(mine))
        if not mine or (cls is L.IntracellFeatures and len(mine) < 2):
            return
        f.create_features()
    c.require("electrodes and type as asked", calls == [("/x/ca.csv", "/x/an.csv", ask, 0)])
    X = f.features
    if cls is L.IntracellCycles:
        good = list(X.index) == mine and list(X.columns) == NAMES
        c.require("a row per diagnostic", good)
        for i in mine if good else []:
            c.require(f"values of cycle {i}", all_of([close(X.loc[i, k], v) for k, v in zip(NAMES, vals[i])]))
        c.cover("rows", len(mine) > 2)
    else:
        cols = [f"diag_{j}_{k}" for j in (0, 1) for k in NAMES]
        good = len(X) == 1 and list(X.columns) == cols
        c.require("one row of two diagnostics", good)
        for j in (0, 1) if good else []:
            c.require(f"values of diagnostic {j}", all_of([close(X[f"diag_{j}_{k}"].iloc[0], v) for k, v in zip(NAMES, vals[mine[j]])]))
        c.cover("features")
    unchanged()


def _ewm(orig):
    def f(self, com=None, *a, **k):
        if a or set(k) - {"alpha"} or not patches.has_sym(self.values.ravel().tolist()):
            return orig(self, com, *a, **k)
        df, cm = self, com if com is not None else (1 - k["alpha"]) / k["alpha"]

        class W:
            def mean(self):
                return pd.DataFrame({q: pd.Series(p32.ewm(list(df[q]), cm), index=df.index, dtype=object) for q in df.columns})
        return W()
    return f


def pats():
    return [p for p in p32.pats() if p[1] != "ewm"] + [(pd.DataFrame, "ewm", _ewm(pd.DataFrame.ewm))]


def known_harnesses():
    return [dict(name="lock", fn=lock, params={}, patches=pats)]


def harnesses(tier):
    deep = tier == "thorough"
    n = 6 if deep else 5
    H = [dict(name=f"initial_{s}", fn=initial, params=dict(n=n, sym=s, cases=4), weight=5) for s in ("pe", "ne")]
    H += [dict(name=f"degrade_{s}", fn=degrade, params=dict(n=n, sym=s), weight=5) for s in ("pe", "ne")]
    H += [dict(name=f"match_{s}", fn=match, params=dict(n=n, sym=s), weight=5) for s in ("pe", "ne")]
    H += [dict(name=f"derivative[{k}]", fn=derivative, params=dict(name=k), weight=3) for k in KINDS]
    H += [dict(name=f"values_{s}", fn=values, params=dict(n=5 if deep else 4, sym=s), weight=4) for s in ("pe", "ne")]
    H += [dict(name="v_over_soc", fn=v_over_soc, params={}, weight=2),
          dict(name="match2_pe", fn=match2, params=dict(n=n, sym="pe"), weight=5),
          dict(name="robust", fn=robust, params={}, weight=2),
          dict(name="drawn", fn=drawn, params={}, weight=2),
          dict(name="errors", fn=errors, params={}, weight=2),
          dict(name="blend", fn=p32.blend, params=dict(v=1), weight=4),
          dict(name="first_profile", fn=first_profile, params={}, weight=3),
          dict(name="later_profile", fn=later_profile, params={}, weight=3),
          dict(name="wrapper", fn=wrapper, params={}, weight=1),
          dict(name="features", fn=features, params={}, weight=3)]
    for h in H:
        h["patches"] = pats
    return H
