"""P34: principal components: what is decomposed, what is flagged."""
import json
import os
import tempfile
from .common import *
from .p24 import arr
from symex import core, patches
from symex.patches import l_sum

BOUNDS = {"quick": "training sets of 5-6 samples by 3-4 quantities (decomposed by the real scikit-learn), 1-2 new samples with every "
                   "value symbolic, thresholds symbolic, explained variances symbolic; runs of 2-4 cycles by 2-3 grid points with "
                   "symbolic capacities, 1-3 files",
          "thorough": "more training sets, larger runs"}
OUTSIDE = ("which components scikit-learn finds (the training sets are the enumerated ones); data whose embedding has no spread; variance "
           "thresholds that no number of components reaches")
ASSUMPTIONS = ["scikit-learn's PCA and StandardScaler transformations are the affine maps given by their fitted attributes "
               "(components_, mean_, scale_), as documented"]

TRAIN = [[[1.0, 2.0, 0.5], [2.0, 1.0, 3.0], [4.0, 0.5, 1.0], [3.0, 5.0, 2.0], [0.5, 3.0, 4.0]],
         [[1.0, 0.0, 2.0, 1.0], [0.0, 3.0, 1.0, 2.0], [2.0, 1.0, 5.0, 0.0], [4.0, 2.0, 0.0, 3.0], [1.0, 4.0, 3.0, 5.0], [6.0, 1.0, 2.0, 4.0]]]


def obj(rows):
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            a[i, j] = v
    return a


def sk_patches():
    import sklearn.preprocessing as SP
    import sklearn.decomposition as SD
    import sklearn.decomposition._base as SB
    patches.load_all()
    sym = patches.has_sym

    def wrap(cls, name, f):
        orig = getattr(cls, name)

        def g(self, X, *a, **k):
            return f(self, arr(X)) if sym(X) else orig(self, X, *a, **k)
        return (cls, name, g)

    def st(self, rows):
        if len(rows[0]) != len(self.mean_):
            raise ValueError("number of features")
        return obj([[(v - m) / s for v, m, s in zip(r, self.mean_, self.scale_)] for r in rows])

    def si(self, rows):
        return obj([[v * s + m for v, m, s in zip(r, self.mean_, self.scale_)] for r in rows])

    def pt(self, rows):
        return obj([[l_sum([(v - m) * w for v, m, w in zip(r, self.mean_, comp)]) for comp in self.components_] for r in rows])

    def pi(self, rows):
        return obj([[l_sum([v * self.components_[k][j] for k, v in enumerate(r)]) + self.mean_[j]
                     for j in range(len(self.mean_))] for r in rows])

    def norm(x, ord=None, axis=None, keepdims=False):
        if sym(x):
            if ord is not None or axis not in (1, -1) or keepdims:
                raise core.Unsupported("norm options")
            out = np.empty(len(x), dtype=object)
            for i, r in enumerate(np.asarray(x, dtype=object)):
                out[i] = core.CTX.uf(f"norm{len(r)}", *r)
                ROOTS.append((out[i], l_sum([v * v for v in r]), list(r)))
            return out
        return NORM(x, ord, axis, keepdims)
    return [wrap(SP.StandardScaler, "transform", st), wrap(SP.StandardScaler, "inverse_transform", si),
            wrap(SD.PCA, "transform", pt), wrap(SD.PCA, "inverse_transform", pi), (np.linalg, "norm", norm)]


NORM = np.linalg.norm
ROOTS = []


def trained(c, **k):
    from beep.features.principal_components import PrincipalComponents
    t = TRAIN[c.params.get("train", 0)]
    kk = c.params["k"]
    df = pd.DataFrame(t, columns=[f"q{i}" for i in range(len(t[0]))])
    return PrincipalComponents(df, "n", n_components=kk, explained_variance_threshold=k.get("thr", 0.1)), t


def maps(t, kk):
    """reference: the affine map of scaling and projection, and back"""
    from sklearn.decomposition import PCA
    a = np.array(t)
    mu, sd = a.mean(axis=0), a.std(axis=0)
    p = PCA(n_components=kk).fit((a - mu) / sd)

    def fwd(row):
        z = [(v - m) / s for v, m, s in zip(row, mu, sd)]
        return [l_sum([x * float(w) for x, w in zip(z, comp)]) for comp in p.components_]

    def back(e):
        return [l_sum([v * float(p.components_[k][j]) for k, v in enumerate(e)]) * float(sd[j]) + float(mu[j]) for j in range(len(mu))]
    return fwd, back, np.array([fwd(r) for r in t]).astype(float), p


def new_rows(c, w, n):
    return [[c.real(f"d{i}{j}", -20, 20) for j in range(w)] for i in range(n)]


def embed(c):
    """new data are scaled and projected as the training data were, and come back"""
    pc, t = trained(c)
    kk = c.params["k"]
    fwd, back, E, p = maps(t, kk)
    rows = new_rows(c, len(t[0]), 2)
    df = frame(c, {f"q{j}": [r[j] for r in rows] for j in range(len(t[0]))})
    snap = snapshot(df)
    got = pc.get_pca_embeddings(df)
    c.require("one row of components per sample", got.shape == (2, kk))
    for i, r in enumerate(rows):
        for j, v in enumerate(fwd(r)):
            c.require(f"component {j}", close(got[i][j], v, 1e-6))
    again = pc.get_pca_reconstruction(got)
    c.require("one row of quantities per sample", again.shape == (2, len(t[0])))
    for i, r in enumerate(rows):
        for j, v in enumerate(back(fwd(r))):
            c.require(f"reconstruction {j}", close(again[i][j], v, 1e-5))
            if kk == len(t[0]):
                c.require(f"lossless reconstruction {j}", close(again[i][j], r[j], 1e-5))
    for i, r in enumerate(E):
        for j, v in enumerate(r):
            c.require("training embeddings", close(float(pc.embeddings[i][j]), float(v), 1e-7))
    for l, tt in same_frame(df, snap):
        c.require("data: " + l, tt)
    c.cover("embedded")


def radicand(x):
    """what a symbolic square root is the root of"""
    if isinstance(x, core.SymNum):
        for r, t in core.CTX.sqrt_terms.values():
            if r.eq(x.t):
                return core.SymNum(t)
    return None


def outliers(c):
    """flagged exactly when a component lies outside the quantiles of the training set"""
    pc, t = trained(c)
    kk = c.params["k"]
    fwd, back, E, p = maps(t, kk)
    hi, lo = c.choice("quantiles", [None, (90, 10), (100, 0), (75, 40)]) or (None, None)
    W = (E - E.mean(axis=0)) / E.std(axis=0)
    up, dn = np.percentile(W, 95 if hi is None else hi, axis=0), np.percentile(W, 5 if lo is None else lo, axis=0)
    mid = np.median(W, axis=0)
    rows = new_rows(c, len(t[0]), 2 if hi is None and kk <= 2 else 1)
    df = frame(c, {f"q{j}": [r[j] for r in rows] for j in range(len(t[0]))})
    snap = snapshot(df)
    ROOTS.clear()
    want, dist = [], []
    for r in rows:
        w = [(v - float(m)) / float(s) for v, m, s in zip(fwd(r), E.mean(axis=0), E.std(axis=0))]
        for j, v in enumerate(w):
            for b in (up[j], dn[j]):
                c.assume(abs(v - float(b)) > 1e-4)
        want.append(any_of(*[any_of(v > float(up[j]), v < float(dn[j])) for j, v in enumerate(w)]))
        dist.append(w)
    d, flags = pc.get_pca_decomposition_outliers(df) if hi is None else pc.get_pca_decomposition_outliers(df, upper_quantile=hi, lower_quantile=lo)
    c.require("one flag and distance per sample", len(flags) == len(rows) and len(d) == len(rows))
    for i, w in enumerate(want):
        got = bool(flags[i])
        c.require("flagged exactly when outside", w if got else not_(w))
        c.cover("outlier" if got else "inlier")
        sq = l_sum([(v - float(m)) * (v - float(m)) for v, m in zip(dist[i], mid)])
        if i == 0:
            away = [v - float(m) for v, m in zip(dist[i], mid)]
            vec = [x for r, q, x in ROOTS if isinstance(d[i], core.SymNum) and d[i].t.eq(r.t)]
            if vec:                     # the length of a vector: of this one
                c.require("distance", len(vec[0]) == kk and all_of(*[any_of(close(a, b, 1e-6), close(a, -b, 1e-6)) for a, b in zip(vec[0], away)]))
            else:
                under = radicand(d[i])
                sq = l_sum([a * a for a in away])
                c.require("distance", close(d[i] * d[i] if under is None else under, sq, 1e-5))
    for l, tt in same_frame(df, snap):
        c.require("data: " + l, tt)


def errors(c):
    """mean absolute reconstruction error; flagged exactly when above the threshold times the worst of the training set"""
    pc, t = trained(c)
    kk = c.params["k"]
    fwd, back, E, p = maps(t, kk)

    def err(r):
        d = [abs(a - b) for a, b in zip(back(fwd(r)), r)]
        return l_sum(d) / len(d)
    tr = [float(err(r)) for r in t]
    for i, v in enumerate(tr):
        c.require("training errors", close(float(list(pc.reconstruction_errors)[i]), v, 1e-7))
    rows = new_rows(c, len(t[0]), c.params["rows"])
    thr = c.real("threshold", 0, 5) if c.choice("given", [True, False]) else None
    f = 1.5 if thr is None else thr
    df = frame(c, {f"q{j}": [r[j] for r in rows] for j in range(len(t[0]))})
    es = [err(r) for r in rows]
    for e in es:
        c.assume(abs(e - f * max(tr)) > 1e-4)
    e2, flags = pc.get_reconstruction_error_outliers(df) if thr is None else pc.get_reconstruction_error_outliers(df, threshold=thr)
    e2, flags = list(e2), list(flags)
    c.require("one error and flag per sample", len(e2) == len(rows) == len(flags))
    for i, e in enumerate(es):
        c.require("mean absolute error", close(e2[i], e, 1e-5))
        got = bool(flags[i])
        c.require("flagged exactly when above", (e > f * max(tr)) if got else (e < f * max(tr)))
        c.cover("bad" if got else "good")


def components(c):
    """the smallest number of components that explains more than the threshold"""
    import sklearn.decomposition as SD
    kk = c.params["k"]
    v = [c.real(f"v{i}", 0, 1) for i in range(kk)]
    for a, b in zip(v, v[1:]):
        c.assume(a >= b)
    c.assume(l_sum(v) <= 1)
    thr = c.real("threshold", 0, 1)
    cum = [l_sum(v[:i + 1]) for i in range(kk)]
    for x in cum:
        c.assume(abs(x - thr) > 1e-6)
    c.assume(cum[-1] > thr)
    orig = SD.PCA.fit

    def fit(self, X, y=None):
        r = orig(self, X)
        self.explained_variance_ratio_ = np.array(v, dtype=object if core.CTX.symbolic else float)
        return r
    SD.PCA.fit = fit
    try:
        pc, t = trained(c, thr=thr)
    finally:
        SD.PCA.fit = orig
    m = int(pc.min_components)
    c.require("within the components", 1 <= m <= kk)
    if 1 <= m <= kk:
        c.require("enough", cum[m - 1] > thr)
        if m > 1:
            c.require("no fewer would do", not_(cum[m - 2] > thr))
    c.cover(f"components {m}")


class Run:
    pass


def pivot(c):
    """one row per file and chosen cycle, its discharge values along the grid"""
    import beep.features.principal_components as PC
    k = c.params["files"]
    grid = [2.0, 3.0, 4.0][:c.params["m"]]
    runs, spec = {}, []
    col = c.choice("quantity", ["discharge_capacity", "temperature"])
    for f in range(k):
        cycles = [[1, 2, 5], [2, 5], [7]][f]
        rec = []
        val = {}
        for cyc in cycles:
            for stp in ("charge", "discharge"):
                for g in (grid if stp == "charge" else grid[::-1] if c.params.get("down") else grid):
                    a, b = c.real(f"{f}{cyc}{stp[0]}{g}c", -5, 5), c.real(f"{f}{cyc}{stp[0]}{g}t", -5, 5)
                    rec.append((stp, cyc, g, a, b))
                    val[stp, cyc, g] = a if col == "discharge_capacity" else b
        r = Run()
        r.structured_data = frame(c, {"step_type": [x[0] for x in rec], "cycle_index": [x[1] for x in rec], "voltage": [x[2] for x in rec],
                                      "discharge_capacity": [x[3] for x in rec], "temperature": [x[4] for x in rec]})
        if c.params.get("category"):
            r.structured_data["step_type"] = r.structured_data["step_type"].astype("category")
        runs[f"/f{f}_structure.json"] = r
        spec.append((cycles, val))
    want = c.choice("cycles", [None, [2, 5], [5, 2, 9], [1]])
    default = list(np.linspace(10, 100, 10, dtype=int))
    order = [[0, 1, 2], [2, 1, 0]][c.choice("order", [0, 1])]
    names = [f"/f{i}_structure.json" for i in order if i < k]
    orig = PC.auto_load_processed
    PC.auto_load_processed = lambda p: runs[p]
    try:
        with tempfile.TemporaryDirectory(prefix="verif_") as d:
            text = json.dumps({"file_list": names, "validity": ["valid"] * len(names)})
            if c.choice("from file", [False, True]):
                p = os.path.join(d, "list.json")
                with open(p, "w") as fh:
                    fh.write(text)
                text = p
            kw = {} if want is None else {"cycles_to_pca": np.array(want)}
            df = PC.pivot_data(text, col, "voltage", **kw)
    finally:
        PC.auto_load_processed = orig
    rows = []
    for i in order:
        if i < k:
            cycles, val = spec[i]
            for cyc in sorted(cycles):
                if cyc in (default if want is None else want):
                    rows.append([val["discharge", cyc, g] for g in grid])
    c.require("a row per file and chosen cycle", len(df) == len(rows))
    if rows:
        c.require("a column per grid point", list(df.columns) == grid)
    if len(df) == len(rows) and rows and list(df.columns) == grid:
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                c.require("value", close(pyval(df.iloc[i, j]), v, 1e-9))
        c.require("rows are numbered", list(df.index) == list(range(len(rows))))
        c.cover("rows")


def pats():
    return sk_patches()


def harnesses(tier):
    deep = tier == "thorough"
    H = []
    for t, ks in ((0, (1, 2, 3)), (1, (2, 4) if not deep else (1, 2, 3, 4))):
        for k in ks:
            H.append(dict(name=f"embed_{t}{k}", fn=embed, params=dict(train=t, k=k), patches=pats, weight=2))
            if k < 4 or deep:
                H.append(dict(name=f"outliers_{t}{k}", fn=outliers, params=dict(train=t, k=k), patches=pats, weight=3))
            if k < len(TRAIN[t][0]):
                H.append(dict(name=f"errors_{t}{k}", fn=errors, params=dict(train=t, k=k, rows=1), patches=pats, weight=4))
    for k in (1, 2, 3):
        H.append(dict(name=f"components_{k}", fn=components, params=dict(k=k), patches=pats, weight=2))
    for f in (1, 2, 3):
        H.append(dict(name=f"pivot_{f}", fn=pivot, params=dict(files=f, m=2 if not deep else 3, down=f == 2, category=f == 3), patches=pats, weight=2))
    return H
