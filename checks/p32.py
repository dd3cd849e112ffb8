"""P32: electrode analysis: the emulated cell is the difference of the scaled, shifted electrodes, and the features are its values."""
import contextlib
import types
from .feat import *
from .cli import stubs, world, raises
from .p29 import np_gradient
import scipy.spatial.distance as _dist

BOUNDS = {"all": "electrode curves of 4-5 points (thorough 5-6; the code's 1001-point grids are coarsened to as many) with symbolic voltages, "
                 "several concrete capacities, misalignments and blends; 3-4 point full-cell curves with symbolic voltages or capacities for "
                 "the derivatives; 3 (thorough 4) point curves with symbolic voltages for the electrode values at each of the 16 cell voltages"}
OUTSIDE = ("which parameters scipy's optimiser finds; scipy's distances; discharge profiles; electrode curves that do not overlap; "
           "exactness of the grid beyond the coarsened size; blends whose voltage does not change strictly with their state of charge")
ASSUMPTIONS = ["positive electrode voltage rises and negative electrode voltage falls with state of charge",
               "differential_evolution and cdist are stand-ins that record what they are given"]


@contextlib.contextmanager
def grid(n):
    """the code's 1001-point grids have n points, in symbolic and concrete runs alike"""
    orig = np.linspace

    def linspace(start, stop, num=50, *a, **k):
        return orig(start, stop, n if num == 1001 else num, *a, **k)
    with stubs([(np, "linspace", linspace)]):
        yield


def module(v=2):
    if v == 2:
        from beep.features import intracell_analysis_v2 as M
    else:
        from beep.features import intracell_analysis as M
    return M


def analysis(M, error_type="V-Q", files=2, step_type=0, cycle_type="rpt_0.2C"):
    """an analysis object with its electrode files in a scratch directory"""
    K = M.IntracellAnalysisV2
    ia = K.__new__(K)
    ia.pe_pristine = ia.ne_1_pristine = ia.ne_2_pristine_pos = ia.ne_2_pristine_neg = pd.DataFrame()
    ia.capacity_col, ia.cycle_type, ia.step_type, ia.error_type = "charge_capacity", cycle_type, step_type, error_type
    return ia


def curves(c, n, lo=(2.5, 3.0), hi=(3.9, 4.6), ne=(0.0, 1.2), sym=("pe", "ne")):
    """(pe voltages rising, ne voltages falling, soc)"""
    soc = [100.0 * i / (n - 1) for i in range(n)]
    pe = [c.real(f"pe{i}", 2.0, 4.9) for i in range(n)] if "pe" in sym else [3.0 + 0.25 * i for i in range(n)]
    an = [c.real(f"ne{i}", 0.0, 1.5) for i in range(n)] if "ne" in sym else [0.5 - 0.125 * i for i in range(n)]
    for a, b in zip(pe, pe[1:]):
        if symbolic(a) or isinstance(a, float) and "pe" in sym:
            c.assume(b >= a + 0.03125)
    for a, b in zip(an, an[1:]):
        if "ne" in sym:
            c.assume(b <= a - 0.03125)
    return pe, an, soc


def electrode(c, soc, v):
    return frame(c, {"SOC_aligned": soc, "Voltage_aligned": v})


def at(x, xs, ys):
    """piecewise linear, missing outside"""
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * ((x - xs[i]) / (xs[i + 1] - xs[i]))
    return float("nan")


def spread(a, b, n):
    return [a + (b - a) * i / (n - 1) for i in range(n)]


CASES = [(0.0, 4.0, 4.0), (0.5, 4.0, 4.5), (1.0, 4.5, 4.0), (0.25, 3.0, 6.0), (2.0, 5.0, 3.5)]


def same_missing(c, label, got, want, tol=1e-7):
    got, want = list(got), list(want)
    c.require(label + ": length", len(got) == len(want))
    if len(got) == len(want):
        c.require(label, all_of([(is_nan(pyval(a)) is True if is_nan(b) is True else close(a, b, tol)) for a, b in zip(got, want)]))


def scaled(pe, ne, soc, lli, q_pe, q_ne, n):
    qp, qn = [s / 100 * q_pe for s in soc], [s / 100 * q_ne + lli for s in soc]
    q = spread(min(qp[0], qn[0]), max(qp[-1], qn[-1]), n)
    return q, [at(x, qp, pe) for x in q], [at(x, qn, ne) for x in q]


def scale(c):
    M = module()
    n = c.params["n"]
    lli, qp, qn = c.choice("case", CASES)
    pe, ne, soc = curves(c, n)
    P, N = electrode(c, soc, pe), electrode(c, soc, ne)
    bp, bn = snapshot(P), snapshot(N)
    with grid(n):
        a, b = analysis(M)._impose_electrode_scale(P, N, pd.DataFrame(), pd.DataFrame(), lli=lli, q_pe=qp, q_ne=qn, x_ne_2=0.0)
    q, vp, vn = scaled(pe, ne, soc, lli, qp, qn, n)
    for tag, got, v in (("positive", a, vp), ("negative", b, vn)):
        same_missing(c, f"{tag} electrode on the common capacity grid", got["Q_aligned"], q)
        same_missing(c, f"{tag} electrode voltage", got["Voltage_aligned"], v)
    for l, t in same_frame(P, bp) + same_frame(N, bn):
        c.require(f"electrodes given: {l}", t)
    c.cover("reached")


def emulated(c, q, vp, vn, lo=2.7, hi=4.2):
    """[(Q, V)] of the emulated cell within the voltage range, zeroed at its lowest voltage; forks on the range"""
    def clear(v, z):
        c.assume(any_of([v < z - 1e-6, v > z + 1e-6]))
    pts = []
    for x, a, b in zip(q, vp, vn):
        if is_nan(a) is True or is_nan(b) is True:
            continue
        v = a - b
        clear(v, lo)
        clear(v, hi)
        if bool(v < lo) or bool(v > hi):
            continue
        pts.append((x, v))
    if not pts:
        return [], 0.0
    zero = pts[0][0]                                # the cell voltage rises with capacity
    return [(x - zero, v) for x, v in pts], zero


def matching(c):
    """halfcell_degradation_matching_ah and its variant without a real cell"""
    M = module()
    n, kind = c.params["n"], c.params["kind"]
    lli, qp, qn = c.choice("case", CASES[:3] if kind != "error" else CASES[:1])
    pe, ne, soc = curves(c, n, sym=("pe",) if c.choice("symbolic", ["pe", "ne"]) == "pe" else ("ne",))
    P, N = electrode(c, soc, pe), electrode(c, soc, ne)
    real_q = c.choice("real", [[0.0, 1.0, 2.0, 3.0], [0.0, 0.5, 1.0, 1.5]])
    real_v = [2.75, c.real("rv1", 2.7, 4.2), 3.5, c.real("rv3", 2.7, 4.2)]
    if c.choice("missing real point", [False, True]):
        real_v[0] = float("nan")
    R = frame(c, {"Voltage_aligned": real_v, "Q_aligned": real_q})
    before = [snapshot(x) for x in (P, N, R)]
    q, vp, vn = scaled(pe, ne, soc, lli, qp, qn, n)
    pts, zero = emulated(c, q, vp, vn)
    ia = analysis(M)
    none = pd.DataFrame()
    x = [lli, qp, qn, 0.0]
    if kind == "error":
        if not pts:
            with grid(n):
                with stubs([(_dist, "cdist", lambda a, b, *r, **k: np.zeros((len(a), len(b))))]):
                    e = ia._get_error_from_degradation_matching_v_q(x, P, N, none, none, R)
            c.require("electrodes that make no cell in the voltage range have the error 100", e[0] == 100)
            c.cover("no cell")
        return
    if len(pts) < 2:
        return
    with grid(n):
        if kind == "real":
            a, b, r, e = ia.halfcell_degradation_matching_ah(x, P, N, none, none, R)
        else:
            a, b, e = ia.halfcell_degradation_matching_ah_no_real(x, P, N, none, none)
            r = None
    for tag, got, v in (("positive", a, vp), ("negative", b, vn)):
        same_missing(c, f"{tag} electrode is zeroed with the cell", got["Q_aligned"], [y - zero for y in q])
        same_missing(c, f"{tag} electrode voltage", got["Voltage_aligned"], v)
    qs, vs = [p for p, _ in pts], [v for _, v in pts]
    if kind == "real":
        known = [(y, v) for y, v in zip(real_q, real_v) if not is_nan(v) is True]
        g = spread(known[0][0], known[-1][0], n)
        same_missing(c, "real capacity grid", r["Q_aligned"], g)
        same_missing(c, "real voltages", r["Voltage_aligned"], [at(y, [p for p, _ in known], [v for _, v in known]) for y in g])
    else:
        g = spread(qs[0], qs[-1], n)
    same_missing(c, "emulated capacity grid", e["Q_aligned"], g)
    same_missing(c, "emulated voltages", e["Voltage_aligned"], [at(y, qs, vs) for y in g])
    for f, s, tag in ((P, before[0], "positive"), (N, before[1], "negative"), (R, before[2], "real")):
        for l, t in same_frame(f, s):
            c.require(f"{tag} curve given: {l}", t)
    c.cover("shifted", zero != 0)
    c.cover("cut", len(pts) < n)


def ewm(vals, com=0.1):
    """exponentially weighted means with adjusted weights, missing values skipped but aged"""
    r = 1 - 1 / (1 + com)
    out = []
    for i in range(len(vals)):
        num, den, w = 0.0, 0.0, 1.0
        for j in range(i, -1, -1):
            if not is_nan(vals[j]) is True:
                num, den = num + w * vals[j], den + w
            w *= r
        out.append(num / den if den else float("nan"))
    return out


def slope(y, x):
    """derivative dy/dx on the points x (numpy's second order differences)"""
    n = len(x)
    out = []
    for i in range(n):
        if i in (0, n - 1):
            j = 0 if i == 0 else n - 2
            out.append((y[j + 1] - y[j]) / (x[j + 1] - x[j]))
        else:
            hs, hd = x[i] - x[i - 1], x[i + 1] - x[i]
            out.append((hs * hs * y[i + 1] + (hd * hd - hs * hs) * y[i] - hd * hd * y[i - 1]) / (hs * hd * (hd + hs)))
    return out


def derivative(c):
    M = module()
    n, kind = c.params["n"], c.params["kind"]
    g = c.choice("grid", [[0.0, 1.0, 2.0, 3.0, 4.0][:n], [0.25, 0.75, 1.75, 2.0, 4.0][:n]])
    if kind == "dvdq":
        qr, qe = g, g
        vr, ve = [c.real(f"vr{i}", 2.7, 4.2) for i in range(n)], [c.real(f"ve{i}", 2.7, 4.2) for i in range(n)]
        if c.choice("missing", [False, True]):
            ve[-1] = float("nan")
    else:
        vr = c.choice("real voltages", [[2.7, 3.0, 3.5, 3.75, 4.2][:n], [2.75, 3.25, 3.75, 4.0, 4.125][:n]])
        ve = c.choice("emulated voltages", [[2.8, 3.0, 3.5, 4.0, 4.15][:n], [2.7, 3.5, 3.75, 4.2][:n] if n == 4 else [2.7, 3.5, 4.2]])
        qr = [c.real(f"q{i}", 0, 5) for i in range(n)]
        qe = [c.real(f"p{i}", 0, 5) for i in range(n)]
        for z in (qr, qe):
            for a, b in zip(z, z[1:]):
                c.assume(b >= a)
    R, E = frame(c, {"Q_aligned": qr, "Voltage_aligned": vr}), frame(c, {"Q_aligned": qe, "Voltage_aligned": ve})
    pe, ne = pd.DataFrame({"a": [1.0]}), pd.DataFrame({"b": [2.0]})
    ia = analysis(M)
    seen = []
    ia.halfcell_degradation_matching_ah = lambda x, *p: seen.append((x, p)) or (pe, ne, R, E)
    m = c.params.get("m", 4)
    with grid(m):
        f = ia.get_dvdq_over_q_from_degradation_matching_ah if kind == "dvdq" else ia.get_dqdv_over_v_from_degradation_matching_ah
        out = f([1, 2, 3, 4], "p")
    c.require("the parameters are passed on", seen == [([1, 2, 3, 4], ("p",))] and len(out) == 6)
    c.require("electrodes and matched curves are handed out", out[0] is pe and out[1] is ne and out[4] is R and out[5] is E)
    for tag, got, q, v in (("real", out[2], qr, vr), ("emulated", out[3], qe, ve)):
        if kind == "dvdq":
            same_missing(c, f"{tag} dVdQ", got["dVdQ"], ewm(slope(v, q)))
            same_missing(c, f"{tag} capacity", got["Q_aligned"], q)
            same_missing(c, f"{tag} voltage", got["Voltage_aligned"], v)
        else:
            grid_v = spread(2.7, 4.2, m)
            d = ewm(slope(q, v))
            same_missing(c, f"{tag} voltage grid", got["Voltage_aligned"], grid_v)
            same_missing(c, f"{tag} dQdV over voltage", got["dQdV"], [0.0 if z < v[0] or z > v[-1] else at(z, v, d) for z in grid_v])
            same_missing(c, f"{tag} capacity over voltage", got["Q_aligned"],
                         [0.0 if z < v[0] else qr[-1] if z > v[-1] else at(z, v, q) for z in grid_v])
    c.cover("reached")


LEVELS = ["4p2", "4p1", "4p0", "3p9", "3p8", "3p7", "3p6", "3p5", "3p4", "3p3", "3p2", "3p1", "3p0", "2p9", "2p8", "2p7"]
INFO = [f"{e}_{w}_FC{l}V" for e in ("pe", "ne") for w in ("voltage", "soc") for l in LEVELS] + ["Q_fc", "Q_pe", "Q_ne", "Q_li"]


def info(c):
    M = module()
    n = c.params["n"]
    k = c.params["few"]
    if c.params["sym"] == "pe":
        pe, ne = [c.real(f"pe{i}", 2.7, 4.9) for i in range(n)], c.choice("ne", [[0.5, 0.25, 0.125, 0.0][:n], [1.0, 0.75, 0.5, 0.25][:n]][:k])
    else:
        pe, ne = c.choice("pe", [[3.0, 3.5, 4.25, 4.3][:n], [3.0, 3.75, 4.25, 4.5][:n]][:k]), [c.real(f"ne{i}", 0.0, 1.5) for i in range(n)]
    gap = c.choice("outside", ["none", "ne starts later", "pe ends earlier"])
    q = c.choice("Q", [[-0.5, 1.0, 3.0, 4.0][:n], [0.0, 2.5, 3.0, 4.5][:n]][:k])
    pe, ne = list(pe), list(ne)
    if gap == "ne starts later":
        ne[0] = float("nan")
    if gap == "pe ends earlier":
        pe[-1] = float("nan")
    both = [i for i in range(n) if not (is_nan(pe[i]) is True or is_nan(ne[i]) is True)]
    d = {i: pe[i] - ne[i] for i in both}
    for i, j in zip(both, both[1:]):
        c.assume(d[j] >= d[i] + 0.03125)
    c.assume(d[both[0]] >= 2.3)
    P, N = frame(c, {"Q_aligned": q, "Voltage_aligned": pe}), frame(c, {"Q_aligned": q, "Voltage_aligned": ne})
    X = M.get_electrode_info_ah(P, N)
    c.require("one row with every value", len(X) == 1 and list(X.columns) == INFO)
    if len(X) != 1 or list(X.columns) != INFO:
        return
    g = lambda k: X[k].iloc[0]

    def span(v):
        k = [x for x, y in zip(q, v) if not is_nan(y) is True]
        return k[0], k[-1]
    for l in LEVELS:
        v = float(l.replace("p", "."))
        for e, vs in (("pe", pe), ("ne", ne)):
            a, b = span(vs)
            opts = []
            for i in both:
                near = all_of([abs(d[i] - v) <= abs(d[j] - v) + 1e-9 for j in both if j != i])
                opts.append(all_of([near, close(g(f"{e}_voltage_FC{l}V"), vs[i], 1e-7), close(g(f"{e}_soc_FC{l}V"), (q[i] - a) / (b - a), 1e-7)]))
            c.require(f"{e} voltage and state of charge where the cell is nearest {v} V", any_of(opts))
    c.require("cell capacity where the cell is nearest 4.2 V", any_of([all_of([close(g("Q_fc"), q[i], 1e-7)] + [
        abs(d[i] - 4.2) <= abs(d[j] - 4.2) + 1e-9 for j in both if j != i]) for i in both]))
    for k, v in (("Q_pe", span(pe)), ("Q_ne", span(ne)), ("Q_li", (q[both[0]], q[both[-1]]))):
        c.require(f"{k} is the capacity it spans", close(g(k), v[1] - v[0], 1e-7))
    c.cover("reached")


def blend(c):
    M = module(c.params.get("v", 2))
    n = 4
    v1, v2 = [0.0, 0.25, 0.5, 0.75], [0.0, 0.25, 0.5, 0.75]
    if c.choice("span", ["same", "other"]) == "other":
        v2 = [0.125, 0.25, 0.5, 1.0]
    s1 = [100.0, c.real("s1", 55, 90), c.real("s2", 20, 50), 0.0]
    s2, s3 = [100.0, 50.0, 25.0, 0.0], [100.0, 80.0, 30.0, 0.0]
    A, B, C = [pd.DataFrame({"SOC_aligned": s if not c.symbolic else pd.Series(s, dtype=object), "Voltage_aligned": v})
               for s, v in ((s1, v1), (s2, v2), (s3, v2))]
    x = c.choice("x", [0.25, -0.25, 0.5, -0.5, 0.0])
    have = c.choice("materials", ["none", "pos", "both"])
    before = [snapshot(z) for z in (A, B, C)]
    m = 4
    with grid(m):
        got = M.blend_electrodes(A, pd.DataFrame() if have == "none" else B, C if have == "both" else pd.DataFrame(), x)
    for z, s in zip((A, B, C), before):
        for l, t in same_frame(z, s):
            c.require(f"materials: {l}", t)
    if have == "none":
        c.require("without a second material the first is the electrode", all_of([same_cell(a, b) for a, b in zip(got["SOC_aligned"], s1)] + [
            same_cell(a, b) for a, b in zip(got["Voltage_aligned"], v1)]))
        c.cover("none")
        return
    second = s3 if have == "both" and x <= 0 else s2
    f = abs(x)

    def ext(z, xs, ys):
        i = 0
        while i < len(xs) - 2 and z > xs[i + 1]:
            i += 1
        return ys[i] + (ys[i + 1] - ys[i]) * ((z - xs[i]) / (xs[i + 1] - xs[i]))
    vs = spread(min(v1 + v2), max(v1 + v2), m)
    mix = [(1 - f) * ext(z, v1, s1) + f * ext(z, v2, second) for z in vs]      # falls with the voltage
    for a, b in zip(mix, mix[1:]):
        c.assume(a >= b + 1)

    def volt(s):
        """voltage of the blend at a state of charge, missing outside"""
        if bool(s > mix[0]) or bool(s < mix[-1]):
            return float("nan")
        for i in range(m - 1, 0, -1):
            if bool(s <= mix[i - 1]):
                return vs[i] + (vs[i - 1] - vs[i]) * (s - mix[i]) / (mix[i - 1] - mix[i])
    socs = spread(0.0, 100.0, m)
    pts = [(s, volt(s)) for s in socs]
    pts = [(s, v) for s, v in pts if not is_nan(v) is True]
    if len(pts) < 2:
        return
    new = spread(pts[0][0], pts[-1][0], m)
    same_missing(c, "state of charge of the blend up to 100", got["SOC_aligned"], [z / new[-1] * 100 for z in new])
    same_missing(c, "voltage of the blend", got["Voltage_aligned"], [at(z, [p for p, _ in pts], [v for _, v in pts]) for z in new], 1e-5)
    c.cover("blended")


def errors(c):
    M = module()
    kind = c.choice("error type", ["V-Q", "dVdQ", "dQdV", "other"])
    ia = analysis(M, error_type=kind)
    vals = {k: c.real(k, 0, 99) for k in ("v_q", "dvdq", "dqdv")}
    for k in vals:
        setattr(ia, f"_get_error_from_degradation_matching_{k}", lambda x, *p, k=k: (vals[k] if (x, p) == ([1, 2], ("a", "b")) else -1.0, None, None, None))
    want = {"dVdQ": "dvdq", "dQdV": "dqdv"}.get(kind, "v_q")
    c.require("error of a real cell is of the chosen kind", close(ia._get_error_from_degradation_matching_ah([1, 2], "a", "b"), vals[want]))
    c.require("error of a synthetic cell is of the chosen kind", close(ia._get_error_from_synthetic_fitting_ah([1, 2], "a", "b"), vals[want]))
    c.cover("reached")


def distances(c):
    """each error is the mean over the real curve of the distance to the nearest emulated point"""
    M = module()
    kind = c.choice("kind", ["v_q", "dvdq", "dqdv"])
    n = 3
    cols = {"v_q": ["Q_aligned", "Voltage_aligned"], "dvdq": ["Q_aligned", "dVdQ", "Voltage_aligned"], "dqdv": ["dQdV", "Q_aligned", "Voltage_aligned"]}[kind]
    use = {"v_q": cols, "dvdq": cols[:2], "dqdv": ["Voltage_aligned", "dQdV"]}[kind]
    data = {}
    for tag in "re":
        data[tag] = {k: [c.real(f"{tag}{k}{i}", 0.0, 5) if k != "Q_aligned" else [0.25, 0.75, 2.0][i] + (0.125 if tag == "e" else 0) for i in range(n)]
                     for k in cols}
    if c.choice("missing", [False, True]):
        data["e"][use[1] if kind != "dqdv" else "dQdV"][2] = float("nan")
    R, E = frame(c, data["r"]), frame(c, data["e"])
    ia = analysis(M)
    out = (None, None, R, E) if kind == "v_q" else (None, None, R, E, None, None)
    fail = c.choice("no cell", [False, True])
    seen = []

    def inner(x, *p):
        seen.append((x, p))
        if fail:
            raise ValueError("no cell")
        return out
    setattr(ia, {"v_q": "get_v_over_q_from_degradation_matching_ah", "dvdq": "get_dvdq_over_q_from_degradation_matching_ah",
                 "dqdv": "get_dqdv_over_v_from_degradation_matching_ah"}[kind], inner)
    D = [[c.real(f"d{i}{j}", 0, 9) for j in range(n)] for i in range(n)]
    given = []

    def cdist(a, b, metric="euclidean", *r, **k):
        given.append((a, b, metric))
        z = np.array([[D[i][j] for j in range(len(b))] for i in range(len(a))], dtype=object if c.symbolic else float)
        return z
    with stubs([(_dist, "cdist", cdist)]):
        got = getattr(ia, f"_get_error_from_degradation_matching_{kind}")([9], "z")
    c.require("the parameters are passed on", seen == [([9], ("z",))])
    if fail:
        c.require("no cell has the error 100", got[0] == 100)
        c.cover("fail")
        return

    def rows(d):
        k = [i for i in range(n) if not any(is_nan(d[q][i]) is True for q in use) and (kind != "dvdq" or d["Q_aligned"][i] > 0.5)]
        return k, [[d[q][i] for q in use] for i in k]
    c.require("one set of distances", len(given) == 1 and given[0][2] == "seuclidean")
    (kr, wr), (ke, we) = rows(data["r"]), rows(data["e"])
    for tag, g, w in (("real", given[0][0], wr), ("emulated", given[0][1], we)):
        c.require(f"{tag} points", list(g.columns) == use and len(g) == len(w))
        if list(g.columns) == use and len(g) == len(w):
            c.require(f"{tag} values", all_of([same_cell(g[q].iloc[i], w[i][j]) for i in range(len(w)) for j, q in enumerate(use)]))
    if len(given[0][0]) == len(wr) and len(given[0][1]) == len(we):
        near = [smin([D[i][j] for j in range(len(we))]) for i in range(len(wr))]
        c.require("mean distance to the nearest point", close(got[0], sum(near[1:], near[0]) / len(near), 1e-7))
    c.cover("reached")


def profile(c):
    """the charge of the diagnostic cycle, on an even capacity grid"""
    M = module()
    n = 4
    ctype = c.choice("type", ["rpt_0.2C", "rpt_1C"])
    cyc = c.choice("cycle", [2, 37])
    q = c.choice("Q", [[0.5, 1.0, 2.0, 3.0], [0.0, 1.0, 2.5, 4.0]])
    v = [c.real(f"v{i}", 2.7, 4.3) for i in range(n)]
    rows = []
    for cy, ty, step in ((2, "rpt_0.2C", 0), (2, "rpt_0.2C", 1), (37, "rpt_0.2C", 0), (37, "rpt_1C", 0), (2, "rpt_1C", 0), (37, "rpt_1C", 1)):
        mine = (cy, ty, step) == (cyc, ctype, 0)
        for i in range(n):
            rows.append(dict(cycle_index=cy, cycle_type=ty, step_type=step, voltage=v[i] if mine else 3.0 + 0.1 * i,
                             charge_capacity=q[i] if mine else 5.0 + i, discharge_capacity=0.0 if step == 0 else 1.0))
    df = frame(c, {k: [r[k] for r in rows] for k in rows[0]})
    dp = Datapath(diagnostic_data=df)
    unchanged = keep(c, dp)
    ia = analysis(M, cycle_type=ctype)
    pts = [(a, b) for a, b in zip(q, v) if a > 0 and bool(b < 4.2)]
    if len(pts) < 2:
        return
    m = 5
    with grid(m):
        X = ia.process_beep_cycle_data_for_candidate_halfcell_analysis_ah(dp, cyc)
    g = spread(0.0, pts[-1][0], m)
    same_missing(c, "even capacities from zero to the last", X["Q_aligned"], g)
    same_missing(c, "voltages", X["Voltage_aligned"], [2.7 if z < pts[0][0] else at(z, [p for p, _ in pts], [w for _, w in pts]) for z in g])
    unchanged()
    c.cover("cut", len(pts) < 4)


def wrapper(c):
    """the values of a cycle are those of the parameters the optimiser returns"""
    M = module()
    err = c.real("err", 0, 50)
    x = c.choice("x", [[0.5, 4.0, 4.5, 1.0], [0.0, 3.0, 6.0, -0.25]])
    bounds = c.choice("bounds", [None, ((0, 1), (2, 3), (4, 5), (-1, 1))])
    ia = analysis(M)
    ia.pe_pristine, ia.ne_1_pristine, ia.ne_2_pristine_pos, ia.ne_2_pristine_neg = pe = [object() for _ in range(4)]
    real, curves6 = object(), [types.SimpleNamespace(k=i) for i in range(6)]
    calls = []
    ia.process_beep_cycle_data_for_candidate_halfcell_analysis_ah = lambda dp, i: calls.append(("profile", dp, i)) or real
    ia.get_dqdv_over_v_from_degradation_matching_ah = lambda y, *p: calls.append(("curves", list(y), p)) or tuple(curves6)
    vals = [c.real(f"i{k}", 0, 9) for k in range(3)]
    I = frame(c, {"a": [0.0, vals[0]], "b": [0.0, vals[1]], "c": [0.0, vals[2]]})

    def evolution(f, b, args=(), **k):
        calls.append(("fit", f, b, args))
        return types.SimpleNamespace(x=np.array(x), fun=err)
    dp = object()
    with stubs([(M, "differential_evolution", evolution),
                (M, "get_electrode_info_ah", lambda p, n: calls.append(("info", p, n)) or I)]):
        loss, prof = ia.intracell_values_wrapper_ah(7, dp, **({} if bounds is None else {"degradation_bounds": bounds}))
        calls2 = list(calls)
        del calls[:]
        res = ia.solve_emulated_degradation(real, **({} if bounds is None else {"degradation_bounds": bounds}))
    want_b = bounds or ((0, 3), (2.5, 6.5), (2.5, 6.5), (1, 1))
    k = {z[0]: z for z in calls2}
    c.require("one profile, fit, curves and electrode values", sorted(z[0] for z in calls2) == ["curves", "fit", "info", "profile"])
    c.require("profile of the cycle", k["profile"][1:] == (dp, 7))
    c.require("fit to the profile", k["fit"][1] == ia._get_error_from_degradation_matching_ah and tuple(k["fit"][2]) == want_b
              and len(k["fit"][3]) == 5 and all(a is b for a, b in zip(k["fit"][3], pe + [real])))
    c.require("curves of the parameters found", k["curves"][1] == x and all(a is b for a, b in zip(k["curves"][2], pe + [real])))
    c.require("electrode values of these curves", k["info"][1] is curves6[0] and k["info"][2] is curves6[1])
    c.require("values of the cycle", list(loss) == [7] and len(loss[7]) == 8)
    if list(loss) == [7] and len(loss[7]) == 8:
        c.require("error, parameters and electrode values in order", all_of([close(a, b, 1e-9) for a, b in zip(loss[7], [err] + x + vals)]))
    names = ["PE_zeroed", "NE_zeroed", "dQdV_over_v_real", "dQdV_over_v_emulated", "df_real_interped", "emulated_full_cell_interped"]
    c.require("profiles of the cycle", list(prof) == [7] and set(prof[7]) == set(names + ["real_cell_candidate_charge_profile_aligned"]))
    if list(prof) == [7]:
        c.require("each profile under its name", all(prof[7][n] is z for n, z in zip(names, curves6))
                  and prof[7]["real_cell_candidate_charge_profile_aligned"] is real)
    fit = [z for z in calls if z[0] == "fit"]
    c.require("a synthetic cell is fitted by its own error", len(fit) == 1 and fit[0][1] == ia._get_error_from_synthetic_fitting_ah
              and tuple(fit[0][2]) == want_b and all(a is b for a, b in zip(fit[0][3], pe + [real])))
    c.require("and the fit handed out", list(res.x) == x and close(res.fun, err))
    c.cover("reached")


def features(c):
    """one row per diagnostic of the type with capacity, or the first two in one row"""
    from beep.features import intracell_losses_v2 as L
    cls = c.choice("class", [L.IntracellCyclesV2, L.IntracellFeaturesV2])
    n = 3
    types_ = [c.choice(f"type{i}", ["rpt_0.2C", "rpt_1C"]) for i in range(n)] + ["rpt_0.2C"]
    idx = [2, 37, 70, 3]
    cap = [c.real(f"cap{i}", 0, 5) for i in range(n)] + [1.0]
    ask = c.choice("asked", ["rpt_0.2C", "rpt_1C"])
    mine = [i for i, t, q in zip(idx, types_, cap) if t == ask and bool(q > 0)]
    names = ["rmse_error", "LLI_opt", "Q_pe_opt", "Q_ne_opt", "x_NE_2"] + INFO
    vals = {i: [c.real(f"x{i}_{k}", -9, 9) if k % 9 == 0 else 100.0 * i + k for k in range(len(names))] for i in idx}
    dp = Datapath(diagnostic_summary=frame(c, {"cycle_index": idx, "cycle_type": types_, "discharge_capacity": cap}),
                  diagnostic_data=pd.DataFrame({"cycle_index": idx}))
    unchanged = keep(c, dp)
    calls = []

    class IA:
        THRESHOLD = 4.84 * 0.0

        def __init__(self, pe, ne, cycle_type="rpt_0.2C", step_type=0, **k):
            calls.append((pe, ne, cycle_type, step_type))
            self.cycle_type, self.step_type = cycle_type, step_type

        def intracell_values_wrapper_ah(self, i, d, *a, **k):
            c.require("values of this run", d is dp)
            return {i: np.array(vals[i], dtype=object if c.symbolic else float)}, {i: {}}
    h = dict(cls.DEFAULT_HYPERPARAMETERS, diagnostic_cycle_type=ask, cathode_file="/x/ca.csv", anode_file="/x/an.csv")
    with stubs([(L, "IntracellAnalysisV2", IA)]):
        f = cls(dp, h)
        ok, why = f.validate()
        c.require("a run without such a diagnostic is refused", ok == bool(mine))
        if not mine or (cls is L.IntracellFeaturesV2 and len(mine) < 2):
            return
        f.create_features()
    c.require("electrodes and type as asked", calls == [("/x/ca.csv", "/x/an.csv", ask, 0)])
    X = f.features
    if cls is L.IntracellCyclesV2:
        c.require("a row per diagnostic", list(X.index) == mine and list(X.columns) == names)
        if list(X.index) == mine and list(X.columns) == names:
            for i in mine:
                c.require(f"values of cycle {i}", all_of([close(X.loc[i, k], v) for k, v in zip(names, vals[i])]))
        c.cover("rows", len(mine) > 2)
    else:
        cols = [f"diag_{j}_{k}" for j in (0, 1) for k in names]
        c.require("one row of two diagnostics", len(X) == 1 and list(X.columns) == cols)
        if len(X) == 1 and list(X.columns) == cols:
            for j in (0, 1):
                c.require(f"values of diagnostic {j}", all_of([close(X[f"diag_{j}_{k}"].iloc[0], v) for k, v in zip(names, vals[mine[j]])]))
        c.cover("features")
    unchanged()


# ---------------------------------------------------------------- stand-ins of symbolic runs
def _argmin(orig, best):
    def f(a, *r, **k):
        vals = list(np.asarray(a, dtype=object))
        if not patches.has_sym(vals):
            if getattr(a, "dtype", None) == object:
                a = pd.Series(np.array(vals, dtype=float))
            return orig(a, *r, **k)
        at_ = None
        for i, v in enumerate(vals):
            if is_nan(v) is True:
                continue
            if at_ is None or bool(best(v, vals[at_])):
                at_ = i
        if at_ is None:
            raise ValueError("All-NaN slice encountered")
        return at_
    return f


def _ewm(orig):
    def f(self, com=None, *a, **k):
        if a or k or not patches.has_sym(self.values.ravel().tolist()):
            return orig(self, com, *a, **k)
        df = self

        class W:
            def mean(self):
                return pd.DataFrame({q: pd.Series(ewm(list(df[q]), com), index=df.index, dtype=object) for q in df.columns})
        return W()
    return f


def pats():
    less = lambda a, b: a < b
    return feature_patches() + [(np, "gradient", np_gradient(np.gradient)), (np, "argmin", _argmin(np.argmin, less)),
                                (np, "nanargmin", _argmin(np.nanargmin, less)), (pd.DataFrame, "ewm", _ewm(pd.DataFrame.ewm))]


def harnesses(tier):
    deep = tier == "thorough"
    n = 5 if deep else 4
    H = [dict(name="scale", fn=scale, params=dict(n=n + 1), weight=2),
         dict(name="match_real", fn=matching, params=dict(n=n, kind="real"), weight=5),
         dict(name="match_alone", fn=matching, params=dict(n=n, kind="alone"), weight=4),
         dict(name="match_error", fn=matching, params=dict(n=4, kind="error"), weight=2),
         dict(name="dvdq", fn=derivative, params=dict(n=4, kind="dvdq"), weight=3),
         dict(name="dqdv", fn=derivative, params=dict(n=4, kind="dqdv", m=6 if deep else 4), weight=4),
         dict(name="info_pe", fn=info, params=dict(n=4 if deep else 3, few=2 if deep else 1, sym="pe"), weight=6),
         dict(name="info_ne", fn=info, params=dict(n=4 if deep else 3, few=2 if deep else 1, sym="ne"), weight=6),
         dict(name="blend", fn=blend, params={}, weight=4),
         dict(name="errors", fn=errors, params={}, weight=1),
         dict(name="distances", fn=distances, params={}, weight=2),
         dict(name="profile", fn=profile, params={}, weight=2),
         dict(name="wrapper", fn=wrapper, params={}, weight=1),
         dict(name="features", fn=features, params={}, weight=3)]
    for h in H:
        h["patches"] = pats
    return H
