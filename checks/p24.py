"""P24: the linear model experiment trains on the samples it keeps and predicts by what it learnt, also after the file."""
import contextlib
from .common import *
from .memfs import scratch, mem_patches, monty_patches
from .p19 import featurizer
from .p23 import cellv, missing, cleaned, short, NAN
from symex import core, patches
from symex.patches import l_median, l_mean, l_std, l_sum

BOUNDS = {"quick": "training on 3-4 samples of 1-2 features and 1-2 targets, each value symbolic, missing or infinite, thresholds symbolic in "
                   "[0,1], median/mean/no imputation; prediction for 2-3 samples with any column order, extra columns and missing "
                   "values, symbolic values and threshold; arbitrary (symbolic) fitted coefficients and intercepts, all three models",
          "thorough": "more patterns of missing values"}
OUTSIDE = ("which coefficients scikit-learn's cross validation and coordinate descent find; infinite values or features missing in every "
           "sample at prediction; feature matrices whose columns coincide once the hyperparameter part of the name is removed")
ASSUMPTIONS = ["scikit-learn's StandardScaler is the subtraction of the mean and division by the population standard deviation (1 when it is "
               "0); a fitted linear model predicts x.coef + intercept; the searches and fits store what they are given; the "
               "metrics are functions of (true, predicted)"]
DEV = ["the fitted coefficients are replaced by arbitrary ones after training, in the replay too"]

CSS, TFC = "::CycleSummaryStats", "::TrajectoryFastCharge"
DEPTH = []
LOG = []          # (class name, X rows, y rows) of every fit, in order


def arr(x):
    return [list(r) for r in np.asarray(getattr(x, "values", x), dtype=object).reshape(len(x), -1)]


def scale_of(xs):
    if core.CTX is not None and core.CTX.params.get("abstract") and any(core.symbolic(x) for x in xs):
        s = core.CTX.uf(f"std{len(xs)}", *xs)
        core.CTX.assume(s > 0)
        return s
    s = l_std(xs, ddof=0)
    return ite(s == 0, 1.0, s) if isinstance(s, core.SymNum) else (1.0 if s == 0 else s)


def model_patches():
    """symbolic stand-ins for the numerical routines"""
    import sklearn.preprocessing as SP
    import sklearn.linear_model as SL
    import beep.model as M
    patches.load_all()

    def s_fit(self, X, y=None, sample_weight=None):
        rows = arr(X)
        cs = list(zip(*rows))
        self.mean_ = np.array([l_mean(c) for c in cs], dtype=object)
        self.scale_ = np.array([scale_of(c) for c in cs], dtype=object)
        self.var_ = self.scale_ * self.scale_
        self.n_samples_seen_, self.n_features_in_ = len(rows), len(cs)
        return self

    def s_transform(self, X, copy=None):
        rows = arr(X)
        if len(rows[0]) != len(self.mean_):
            raise ValueError("number of features")
        return np.array([[(v - m) / s for v, m, s in zip(r, self.mean_, self.scale_)] for r in rows], dtype=object)

    out = [(SP.StandardScaler, "fit", s_fit), (SP.StandardScaler, "partial_fit", s_fit), (SP.StandardScaler, "transform", s_transform),
           (SP.StandardScaler, "fit_transform", lambda self, X, y=None, **k: s_fit(self, X).transform(X))]

    def predict(self, X):
        rows = arr(X)
        co = np.asarray(self.coef_, dtype=object)
        b = np.asarray(self.intercept_, dtype=object)
        if co.ndim == 1:
            r = [l_sum([x * w for x, w in zip(row, co)]) + b.reshape(-1)[0] for row in rows]
        else:
            r = [[l_sum([x * w for x, w in zip(row, w_)]) + bb for w_, bb in zip(co, b.reshape(-1))] for row in rows]
        a = np.empty((len(r),) if co.ndim == 1 else (len(r), len(r[0])), dtype=object)
        for i in np.ndindex(a.shape):
            a[i] = r[i[0]] if co.ndim == 1 else r[i[0]][i[1]]
        return a

    for n in ("ElasticNet", "Lasso", "Ridge", "MultiTaskElasticNet"):
        k = getattr(SL, n)
        out += [(k, "fit", mk_fit(n, None)), (k, "predict", predict)]
    for n in ("ElasticNetCV", "LassoCV", "RidgeCV", "MultiTaskElasticNetCV"):
        out.append((getattr(SL, n), "fit", mk_fit(n, None)))

    def metric(name):
        orig = getattr(M, name, None)

        def f(t, p, **k):
            a, b = arr(t), arr(p)
            if len(a) != len(b):
                raise ValueError("inconsistent numbers of samples")
            flat = [x for r in a + b for x in r]
            r = core.CTX.uf(name + str(len(a)), *flat)
            if name == "mean_squared_error":
                core.CTX.assume(r >= 0)
            return r
        return f
    for n in ("mean_squared_error", "mean_absolute_error", "max_error", "r2_score"):
        out.append((M, n, metric(n)))
    out.append((M, "sqrt", lambda x: x.sqrt() if isinstance(x, core.SymNum) else math.sqrt(x)))
    return out


def mk_fit(name, orig):
    def fit(self, X, y=None, *a, **k):
        if DEPTH:                      # a fit inside another one
            return orig(self, X, y, *a, **k)
        LOG.append((name, arr(X), arr(y), dict(alphas=getattr(self, "alphas", None), cv=getattr(self, "cv", None),
                                               alpha=getattr(self, "alpha", None), l1_ratio=getattr(self, "l1_ratio", None))))
        if orig is not None:
            DEPTH.append(1)
            try:
                return orig(self, X, y, *a, **k)
            finally:
                DEPTH.pop()
        if name.endswith("CV"):
            self.alpha_, self.l1_ratio_ = 0.25, 0.5
            return self
        nt, nf = len(arr(y)[0]), len(arr(X)[0])
        multi = name.startswith("Multi")
        self.coef_ = np.array([[core.CTX.uf(f"coef{t}_{f}", *[v for r in arr(X) + arr(y) for v in r]) for f in range(nf)] for t in range(nt)]
                              if multi else [core.CTX.uf(f"coef_{f}", *[v for r in arr(X) + arr(y) for v in r]) for f in range(nf)], dtype=object)
        self.intercept_ = np.array([core.CTX.uf(f"int{t}", *[v for r in arr(y) for v in r]) for t in range(nt)], dtype=object) if multi \
            else core.CTX.uf("int", *[v for r in arr(y) for v in r])
        return self
    return fit


@contextlib.contextmanager
def recorded(c):
    """log what the fits are given: in the replay the library's own routines run behind the log"""
    del LOG[:]
    if c.symbolic:
        yield
        return
    import sklearn.linear_model as SL
    saved = []
    for n in ("ElasticNet", "Lasso", "Ridge", "MultiTaskElasticNet", "ElasticNetCV", "LassoCV", "RidgeCV", "MultiTaskElasticNetCV"):
        k = getattr(SL, n)
        saved.append((k, vars(k).get("fit")))
        k.fit = mk_fit(n, k.fit)
    try:
        yield
    finally:
        for k, f in saved:
            if f is None:
                del k.fit
            else:
                k.fit = f


def table(c, cols, index, cls, hp=None):
    """a feature matrix joined from one vector per file, with its columns in the given order"""
    import beep.features.core as F
    from beep.features.base import BEEPFeatureMatrix
    k = getattr(F, cls.strip(":"))
    h = dict(k.DEFAULT_HYPERPARAMETERS, **(hp or {}))
    m = BEEPFeatureMatrix([featurizer(c, k, h, f, {n: v[j] for n, v in cols.items()}) for j, f in enumerate(index)])
    if list(m.matrix.index) != list(index):
        raise AssertionError("harness: order of the rows")
    return m


FILES = [f"/d/{x}_structure.json" for x in "abcdefg"]


def experiment(c, fm, tm, targets, model, **kw):
    from beep.model import BEEPLinearModelExperiment
    return BEEPLinearModelExperiment(fm, tm, targets, model, kfold=2, max_iter=50, **kw)


def train(c):
    """what is trained on"""
    from beep.model import BEEPMLExperimentError
    n, p = c.params["n"], c.params
    kinds = p["kinds"]
    names = [f"f{i}" for i in range(p["features"])]
    cols = {f: [cellv(c, f"x{i}_{j}", kinds if j in p["holes"] else ["value"]) for j in range(n)] for i, f in enumerate(names)}
    targets = ["t0", "t1"][:p["targets"]]
    ys = {t: [cellv(c, f"y{i}_{j}", kinds if j == i else ["value"]) for j in range(n)] for i, t in enumerate(targets)}
    ys["other"] = [NAN] * n
    homo = c.choice("homogenize", [True, False])
    tf, ts = c.real("tf", 0, 1), c.real("ts", 0, 1)
    impute = c.choice("impute", p.get("impute", ["median", "mean", "none"]))
    drop = c.choice("drop_nan_targets", [True, False])
    model = c.choice("model", p["models"])
    fm = table(c, cols, FILES[:n], CSS)
    tm = table(c, {k: ys[k] for k in ["other"] + targets}, FILES[:n], TFC)
    sf, st = snapshot(fm.matrix), snapshot(tm.matrix)
    hf, ht = ([x.rsplit("::", 1)[1] for x in m.matrix.columns][0] for m in (fm, tm))
    nf = lambda x: x + CSS + ("" if homo else "::" + hf)
    nt = lambda x: x + TFC + ("" if homo else "::" + ht)
    keep, rk, tab = cleaned(c, cols, FILES[:n], names, names, tf, ts, impute)
    yk = [i for i in rk if not any(missing(ys[t][i]) for t in targets)]
    bad = len(rk) < 2 or len(keep) < 1 or (len(yk) < len(rk) and not drop) or len(yk) < 2 or (len(targets) > 1 and model != "elasticnet")
    r, e = raises((BEEPMLExperimentError,), lambda: experiment(
        c, fm, tm, [nt(t) for t in targets], model, train_feature_drop_nan_thresh=tf, train_sample_drop_nan_thresh=ts,
        drop_nan_training_targets=drop, impute_strategy=impute, homogenize_features=homo) if not homo or True else None)
    c.require("refused exactly when fewer than two samples, no feature or an unwanted missing target remain, or for several targets with one model",
              r == bad)
    for m, s, l in ((fm, sf, "features"), (tm, st, "targets")):
        for k, t in same_frame(m.matrix, s):
            c.require(f"the matrix of {l} is left alone: {k}", t)
    if r or bad:
        c.cover("refused")
        return
    c.require("features", list(e.X.columns) == [nf(k) for k in keep] and list(e.feature_labels) == [nf(k) for k in keep])
    c.require("samples", list(e.X.index) == [FILES[i] for i in yk] and list(e.y.index) == [FILES[i] for i in yk])
    c.require("targets", list(e.y.columns) == [nt(t) for t in targets])
    for k in keep:
        c.require(f"values of {k}", all_of([same_cell(e.X[nf(k)].iloc[q], tab[k][rk.index(i)]) for q, i in enumerate(yk)]))
    for t in targets:
        c.require(f"values of {t}", all_of([same_cell(e.y[nt(t)].iloc[q], ys[t][i]) for q, i in enumerate(yk)]))
    c.cover("cleaned")


def exact(c, p, w):
    return all_of([same_cell(a, b, 1e-6) for a, b in zip(p, w)])


def fitted(c):
    """one model per search, on the standardised samples; errors of the training samples"""
    p = c.params
    n, names = 3, ["f0", "f1"][:p["features"]]
    cols = {f: [c.real(f"x{i}_{j}", -5, 5) for j in range(n)] for i, f in enumerate(names)}
    targets = ["t0", "t1"][:p["targets"]]
    ys = {t: [c.real(f"y{i}_{j}", -5, 5) for j in range(n)] for i, t in enumerate(targets)}
    for f in names:
        c.assume(cols[f][0] <= cols[f][1] - 1)
    model = p["model"]
    alphas = c.choice("alphas", [None, [0.5, 0.125]]) if model == "ridge" else [0.5, 0.125]
    e = experiment(c, table(c, cols, FILES[:n], CSS), table(c, ys, FILES[:n], TFC), [t + TFC for t in targets], model, alphas=alphas, l1_ratio=[0.25, 0.5])
    with recorded(c):
        m, err = e.train()
    log = list(LOG)
    klass = {"lasso": "Lasso", "ridge": "Ridge", "elasticnet": "MultiTaskElasticNet" if len(targets) > 1 else "ElasticNet"}[model]
    z = [[(cols[f][j] - l_mean(cols[f])) / scale_of(cols[f]) for f in names] for j in range(n)]
    yy = [[ys[t][j] for t in targets] for j in range(n)]
    c.require("one search and one fit", [x[0] for x in log] == [klass + "CV", klass])
    for x in log:
        c.require(f"{x[0]}: standardised features", all_of([exact(c, a, b) for a, b in zip(x[1], z)] + [len(x[1]) == n]))
        c.require(f"{x[0]}: targets", all_of([exact(c, a, b) for a, b in zip(x[2], yy)] + [len(x[2]) == n]))
    if len(log) == 2:
        c.require("the candidates given", alphas is None or list(log[0][3]["alphas"]) == list(alphas))
        c.require("number of folds", log[0][3]["cv"] == 2)
        c.require("the fit uses what the search found", log[1][3]["alpha"] == e.optimal_hyperparameters["alpha"]
                  and (model != "elasticnet" or log[1][3]["l1_ratio"] == e.optimal_hyperparameters["l1_ratio"]))
    c.require("the experiment keeps the model", e.model is m and type(m).__name__ == klass)
    import beep.model as M
    co = np.asarray(m.coef_, dtype=object).reshape(len(targets), -1)
    b = np.asarray(m.intercept_, dtype=object).reshape(-1)
    fns = dict(rmse=lambda t, q: M.sqrt(M.mean_squared_error(t, q)), mae=M.mean_absolute_error, max_error=M.max_error, r2=M.r2_score)
    c.require("the four metrics", sorted(err) == sorted(fns))
    for i, t in enumerate(targets):
        true = pd.Series([ys[t][j] for j in range(n)], dtype=object if c.symbolic else float)
        pred = pd.Series([l_sum([x * w for x, w in zip(r, co[i])]) + b[i] for r in z], dtype=object if c.symbolic else float)
        for k, f in fns.items():
            got = err[k][t + TFC] if len(targets) > 1 else err[k]
            c.require(f"{k} of {t}", same_cell(got, f(true, pred), 1e-5))
    c.cover("fitted")


def predicted(c):
    """predictions, dropped samples, the file"""
    from beep.model import BEEPLinearModelExperiment, BEEPMLExperimentError
    p = c.params
    n, names = 3, ["f0", "f1"][:p["features"]]
    targets = ["t0", "t1"][:p["targets"]]
    cols = {f: [c.real(f"x{i}_{j}", -5, 5) for j in range(n)] for i, f in enumerate(names)}
    for f in names:
        c.assume(cols[f][0] <= cols[f][1] - 1)
    ys = {t: [c.real(f"y{i}_{j}", -5, 5) for j in range(n)] for i, t in enumerate(targets)}
    if p.get("hole"):
        ys[targets[0]][c.choice("target missing at", [0, 2])] = NAN
    impute = c.choice("impute", p.get("impute", ["median"]))
    pt = c.real("pt", 0, 1)
    homo = c.choice("homogenize", p.get("homo", [True]))
    fm, tm = table(c, cols, FILES[:n], CSS), table(c, ys, FILES[:n], TFC)
    full = lambda m, x: [k for k in m.matrix.columns if k.startswith(x + "::")][0]
    nm = (lambda m, x: short(full(m, x))) if homo else full
    tn = [nm(tm, t) for t in targets]
    e = experiment(c, fm, tm, tn, p["model"], alphas=[0.5], predict_sample_nan_thresh=pt,
                   impute_strategy=impute, drop_nan_training_targets=True, homogenize_features=homo)
    r, _ = raises((BEEPMLExperimentError,), lambda: e.predict(fm))
    c.require("nothing is predicted before training", r)
    r, _ = raises((ValueError,), lambda: e.as_dict())
    c.require("nothing is written before training", r)
    part = p.get("part")
    with recorded(c):
        if part:
            np.random.seed(c.choice("seed", [0, 1, 2]))
            m_, tre, tee = e.train_and_score(0.67)
        else:
            e.train()
        log = list(LOG)
    if part:
        used = None
    else:
        used = [j for j in range(n) if not any(is_nan(ys[t][j]) is True for t in targets)]
    if part == "score":
        import beep.model as M
        fns = dict(rmse=lambda t, q: M.sqrt(M.mean_squared_error(t, q)), mae=M.mean_absolute_error, max_error=M.max_error)
        cs, b0 = list(np.asarray(m_.coef_, dtype=object).reshape(-1)), np.asarray(m_.intercept_, dtype=object).reshape(-1)[0]
        ser = lambda v: pd.Series(v, dtype=object if c.symbolic else float)
        cases = []
        for out in range(n):
            inn = [j for j in range(n) if j != out]
            yv = ys[targets[0]]
            for o in (inn, inn[::-1]):
                ms, ss = [l_mean([cols[f][j] for j in o]) for f in names], [scale_of([cols[f][j] for j in o]) for f in names]
                est = [l_sum([(cols[f][j] - a) / d * w for f, a, d, w in zip(names, ms, ss, cs)]) + b0 for j in range(n)]
                cases.append(all_of([same_cell(got[k], f(ser([yv[j] for j in at]), ser([est[j] for j in at])), 1e-5)
                                     for k, f in fns.items() for got, at in ((tee, [out]), (tre, o))]))
        c.require("the errors are those of the samples left out and of the others", any_of(cases))
        c.require("the metrics", sorted(tre) == sorted(tee) == sorted(list(fns) + ["r2"]))
        c.cover("predicted")
        return
    co = [[c.real(f"w{i}_{f}", -2, 2) for f in names] for i in range(len(targets))]
    b = [c.real(f"b{i}", -2, 2) for i in range(len(targets))]
    dt = object if c.symbolic else float
    multi = len(targets) > 1
    e.model.coef_ = np.array(co if multi else co[0], dtype=dt)
    e.model.intercept_ = np.array(b, dtype=dt) if multi else np.array(b[0], dtype=dt) if c.symbolic else np.float64(b[0])
    # the matrix to predict for
    k = p["rows"]
    idx = FILES[2:2 + k]
    new = {f: [NAN if (i, j) in p["may"] and c.choice(f"missing{i}_{j}", [False, True]) else c.real(f"v{i}_{j}", -5, 5) for j in range(k)]
           for i, f in enumerate(names)}
    lack = c.choice("lacks a feature", [False, True]) if p.get("lack") else False
    extra = c.choice("extra columns", p.get("extra", [0]))
    allc = {f"e{q}": [c.real(f"u{q}_{j}", -5, 5) if j != 1 else NAN for j in range(k)] for q in range(extra)}
    allc.update({f: new[f] for f in reversed(names) if not (lack and f == names[0])})
    if not allc:
        return
    m = table(c, allc, idx, CSS, hp={"cycle_comp_num": [3, 50]} if homo and p.get("other_hp") else None)
    order = c.choice("column order", [0, 1] if len(allc) > 1 else [0])
    m.matrix = m.matrix[list(m.matrix.columns)[::-1 if order else 1]]
    asframe = c.choice("as a frame", p.get("asframe", [False]))
    arg = m.matrix if asframe else m
    snap = snapshot(m.matrix)

    def left_alone(tag):
        for l, t in same_frame(m.matrix, snap):
            c.require(f"{tag}: the matrix is left alone: {l}", t)
    kept = [j for j in range(k) if bool(sum(is_nan(new[f][j]) is not True for f in names) >= pt * len(names))]
    if not lack and any(all(is_nan(new[f][j]) is True for j in kept) for f in names):
        c.cover("nothing to predict")
        return
    r, res = raises((BEEPMLExperimentError,), lambda: e.predict(arg))
    c.require("refused exactly when a trained feature is missing", r == lack)
    left_alone("prediction")
    if r or lack:
        c.cover("lacking")
        return
    pred, dropped = res
    c.require("dropped samples", sorted(dropped) == sorted(idx[j] for j in range(k) if j not in kept))
    c.require("predicted samples", list(pred.index) == [idx[j] for j in kept])
    c.require("predicted targets", list(pred.columns) == tn)
    if used is not None:
        w = {f: (l_median if impute == "median" else l_mean)([new[f][j] for j in kept]) for f in names}
        for i, t in enumerate(tn):
            xs = {f: [cols[f][j] for j in used] for f in names}
            want = [l_sum([((w[f] if is_nan(new[f][j]) is True else new[f][j]) - l_mean(xs[f])) / scale_of(xs[f]) * co[i][q]
                           for q, f in enumerate(names)]) + b[i] for j in kept]
            c.require(f"predictions {i}", exact(c, pred[t].values, want))
    s = snapshot(pred)

    def same(tag, q):
        c.require(f"{tag}: samples", list(q[0].index) == list(pred.index) and sorted(q[1]) == sorted(dropped))
        for l, t in same_frame(q[0], s, 1e-6):
            c.require(f"{tag}: {l}", t)
    same("again", e.predict(arg))
    with scratch(c) as d:
        f = d.path("e.json")
        e.to_json_file(f)
        z = BEEPLinearModelExperiment.from_json_file(f)
    c.require("same type after the file", type(z).__name__ == "BEEPLinearModelExperiment")
    same("after the file", z.predict(arg))
    left_alone("after the file")
    with scratch(c) as d:
        f = d.path("e.json")
        z.to_json_file(f)
        z = BEEPLinearModelExperiment.from_json_file(f)
    same("after two files", z.predict(arg))
    c.cover("predicted")


def refused(c):
    """what cannot be an experiment"""
    from beep.model import BEEPMLExperimentError
    x = [c.real(f"x{j}", -5, 5) for j in range(3)]
    what = c.choice("what", ["fine", "missing target", "rows", "model", "no target"])
    fm = table(c, {"f": x}, FILES[:3], CSS)
    tm = table(c, {"t": x[:2] if what == "rows" else x}, FILES[:2] if what == "rows" else FILES[:3], TFC)
    ts = {"missing target": ["t" + TFC, "u" + TFC], "no target": []}.get(what, ["t" + TFC])
    r, _ = raises((BEEPMLExperimentError, ValueError), lambda: experiment(c, fm, tm, ts, "elasticnet" if what != "model" else "forest"))
    c.require("refused", r == (what != "fine"))
    c.cover(what)


def harnesses(tier):
    q = tier == "quick"

    def pt():
        return mem_patches() + monty_patches() + model_patches()

    def h(name, fn, p, w=3):
        return dict(name=name, fn=fn, params=p, patches=pt, weight=w, max_paths=6000, max_s=600)
    one = dict(models=["lasso"], targets=1)
    hs = [h(f"train-{i}", train, p) for i, p in enumerate([
        dict(n=3, features=2, kinds=["value", "nan"], holes=[0, 1], impute=["median"], **one),
        dict(n=4, features=1, kinds=["value", "nan", "inf"], holes=[0], **one),
        dict(n=3, features=1, kinds=["value", "-inf"], holes=[2], targets=2, models=["elasticnet", "ridge", "lasso"])] + ([] if q else [
            dict(n=4, features=2, kinds=["value", "nan"], holes=[0, 1, 2], **one)]))]
    hs += [h(f"fitted-{m}-{t}", fitted, dict(model=m, targets=t, features=f)) for m, t, f in
           [("lasso", 1, 2), ("ridge", 1, 1), ("elasticnet", 1, 1), ("elasticnet", 2, 1)]]
    P = [dict(model="lasso", features=2, targets=1, rows=2, may=[(0, 0), (1, 0), (1, 1)], extra=[0, 2], impute=["median", "mean"], abstract=True),
         dict(model="ridge", features=2, targets=1, rows=3, may=[(0, 1)], lack=True, other_hp=True, asframe=[False, True], abstract=True),
         dict(model="elasticnet", features=1, targets=2, rows=2, may=[], homo=[True, False]),
         dict(model="ridge", features=1, targets=1, rows=2, may=[(0, 0)], hole=True),
         dict(model="lasso", features=1, targets=1, rows=2, may=[], part=True),
         dict(model="lasso", features=2, targets=1, rows=4, may=[(0, 1)], impute=["median", "mean"], abstract=True),
         dict(model="lasso", features=1, targets=1, rows=2, may=[], part="score", abstract=True)]
    hs += [h(f"predicted-{i}", predicted, p) for i, p in enumerate(P)]
    return hs + [h("refused", refused, {})]
