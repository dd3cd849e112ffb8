"""P23: the data splitter keeps, imputes, excludes and splits the samples it is asked to, and survives the file."""
import logging
from .common import *
from .memfs import scratch, mem_patches, monty_patches
from symex.patches import l_median, l_mean

BOUNDS = {"quick": "3-4 samples, 2-3 features each symbolic, missing or infinite, 1-2 targets, thresholds symbolic in [0,1], median/mean/no "
                   "imputation; up to 2 exclusion columns and 2 grouping columns, 2-3 folds, 3 random states",
          "thorough": "up to 5 samples"}
OUTSIDE = ("exclusion or grouping columns that are themselves mostly missing; feature matrices whose columns coincide once the "
           "hyperparameter part of the name is removed; the names the caller's matrix has afterwards; the order of the folds")
ASSUMPTIONS = ["scikit-learn's KFold is executed concretely (the indices it makes do not depend on the values)"]

NAN = float("nan")
SUF = "::Cls::0123abcd"
CSS = "::CycleSummaryStats"


def matrix_of(c, cols, index):
    from beep.features.base import BEEPFeatureMatrix
    fm = BEEPFeatureMatrix([])
    fm.matrix = frame(c, cols, index=index)
    fm.featurizers = []
    return fm


def real_matrix(c, cols, index):
    """a feature matrix joined from one feature vector per file"""
    from beep.features.base import BEEPFeatureMatrix
    from beep.features.core import CycleSummaryStats
    from .p19 import featurizer
    return BEEPFeatureMatrix([featurizer(c, CycleSummaryStats, CycleSummaryStats.DEFAULT_HYPERPARAMETERS, f,
                                         {k.split("::")[0]: v[j] for k, v in cols.items()}) for j, f in enumerate(index)])


def cellv(c, name, kinds):
    k = c.choice(name + "_kind", kinds)
    if k == "value":
        return c.real(name, -5, 5)
    return {"nan": NAN, "inf": float("inf"), "-inf": float("-inf")}[k]


def missing(v):
    return is_nan(v) is True or (isinstance(v, float) and v in (float("inf"), float("-inf")))


def short(n):
    return "::".join(n.split("::")[:2])


def cleaned(c, cols, rows, used, feats, tf, ts, impute):
    """(kept columns, kept rows, table) by the thresholds; forks on the thresholds"""
    keep = [k for k in used if bool(sum(not missing(v) for v in cols[k]) >= tf * len(rows))]
    rk = [i for i in range(len(rows)) if bool(sum(not missing(cols[k][i]) for k in keep) >= ts * len(keep))]
    out = {}
    for k in keep:
        xs = [NAN if missing(cols[k][i]) else cols[k][i] for i in rk]
        f = {"median": l_median, "mean": l_mean, "none": None}[impute]
        w = f(xs) if f else NAN
        out[k] = [w if is_nan(x) is True else x for x in xs]
    return keep, rk, out


def clean(c):
    """thresholds, imputation, targets"""
    from beep.prediction.beep_data_splitter import BEEPDataSplitter, BEEPDataSplitterError
    n = c.params["n"]
    rows = [f"/d/{x}_structure.json" for x in "qwert"[:n]]
    nf = c.params["features"]
    names = [f"f{i}" + SUF for i in range(nf)]
    kinds = c.params["kinds"]
    cols = {f: [cellv(c, f"x{i}_{j}", kinds if j in c.params["holes"] else ["value"]) for j in range(n)] for i, f in enumerate(names)}
    targets = ["t0" + SUF] + (["t1" + SUF] if c.params["targets"] == 2 else [])
    for i, t in enumerate(targets):
        cols[t] = [cellv(c, f"y{i}_{j}", kinds if j == i else ["value"]) for j in range(n)]
    cols["z" + SUF] = [NAN] * n
    order = [names[-1]] + targets + names[:-1] + ["z" + SUF]
    homo = c.choice("homogenize", [True, False])
    nm = (lambda x: short(x)) if homo else (lambda x: x)
    tf, ts = c.real("tf", 0, 1), c.real("ts", 0, 1)
    impute = c.choice("impute", ["median", "mean", "none"])
    drop = c.choice("drop_nan_targets", [True, False])
    fm = matrix_of(c, {k: cols[k] for k in order}, rows)
    keep, rk, tab = cleaned(c, cols, rows, names, names, tf, ts, impute)
    yk = [i for i in rk if not any(missing(cols[t][i]) for t in targets)]
    bad = len(rk) < 2 or len(keep) < 1 or (len(yk) < len(rk) and not drop) or len(yk) < 2
    r, s = raises((BEEPDataSplitterError,), lambda: BEEPDataSplitter(
        fm, [nm(x) for x in names], [nm(x) for x in targets], train_feature_drop_nan_thresh=tf, train_sample_drop_nan_thresh=ts,
        drop_nan_training_targets=drop, impute_strategy=impute, n_splits=2, homogenize_features=homo))
    c.require("refused exactly when fewer than two samples, no feature or an unwanted missing target remain", r == bad)
    if r or bad:
        c.cover("refused")
        return
    c.require("features", list(s.X.columns) == [nm(k) for k in keep])
    c.require("feature labels", list(s.feature_labels) == [nm(k) for k in keep])
    c.require("samples", list(s.X.index) == [rows[i] for i in yk])
    c.require("samples of the targets", list(s.y.index) == [rows[i] for i in yk])
    c.require("targets", list(s.y.columns) == [nm(t) for t in targets])
    for k in keep:
        c.require(f"values of {k[:2]}", all_of([same_cell(s.X[nm(k)].iloc[p], tab[k][rk.index(i)]) for p, i in enumerate(yk)]))
    for t in targets:
        c.require(f"values of {t[:2]}", all_of([same_cell(s.y[nm(t)].iloc[p], cols[t][i]) for p, i in enumerate(yk)]))
    c.cover("cleaned")


def check_sets(c, tag, s, sets, n_splits, groups=None):
    c.require(f"{tag}: number of datasets", len(sets) == n_splits)
    idx = list(s.X.index)
    tests = []
    for d in sets:
        tr, te = list(d.train_X.index), list(d.test_X.index)
        tests += te
        c.require(f"{tag}: every sample is in train or test", sorted(tr + te) == sorted(idx))
        c.require(f"{tag}: targets go with the features", list(d.train_y.index) == tr and list(d.test_y.index) == te)
        for part in (d.train_X, d.test_X):
            c.require(f"{tag}: the features and only they", list(part.columns) == list(s.feature_labels))
            c.require(f"{tag}: feature values", all_of([same_cell(part[k].iloc[p], s.X.loc[i, k]) for k in part.columns
                                                        for p, i in enumerate(part.index)]))
        for part in (d.train_y, d.test_y):
            c.require(f"{tag}: the targets and only they", list(part.columns) == list(s.targets))
            c.require(f"{tag}: target values", all_of([same_cell(part[k].iloc[p], s.y.loc[i, k]) for k in part.columns
                                                       for p, i in enumerate(part.index)]))
        if groups is not None:
            c.require(f"{tag}: no group on both sides", not ({groups[i] for i in tr} & {groups[i] for i in te}))
    c.require(f"{tag}: every sample is tested once", sorted(tests) == sorted(idx))
    if groups is None:
        sizes = [len(d.test_X) for d in sets]
    else:
        sizes = [len({groups[i] for i in d.test_X.index}) for d in sets]
    c.require(f"{tag}: folds of equal size", max(sizes) - min(sizes) <= 1)


def same_sets(c, tag, a, b):
    c.require(f"{tag}: number", len(a) == len(b))
    for x, y in zip(a, b):
        for k in ("train_X", "train_y", "test_X", "test_y"):
            u, v = getattr(x, k), getattr(y, k)
            for l, t in same_frame(v, snapshot(u)):
                c.require(f"{tag}: {k} {l}", t)
            c.require(f"{tag}: {k} samples", list(u.index) == list(v.index))


def split(c):
    """exclusion, groups, folds, and the file"""
    from beep.prediction.beep_data_splitter import BEEPDataSplitter, BEEPDataSplitterError
    n = c.params["n"]
    rows = [f"/d/{x}_structure.json" for x in "abcde"[:n]]
    names = ["f0" + CSS, "f1" + CSS]
    cols = {names[0]: [c.real(f"a{j}", -5, 5) for j in range(n)],
            names[1]: [cellv(c, f"b{j}", ["value", "nan"] if j < c.params.get("holes", 0) else ["value"]) for j in range(n)],
            "t" + CSS: [c.real(f"y{j}", -5, 5) for j in range(n)]}
    excl, grp = [], []
    if c.params["exclude"]:
        excl = ["is_a" + CSS, "is_b" + CSS][:c.params["exclude"]]
        for q, e in enumerate(excl):
            vals = [True, False] + ([None] if c.params.get("undetermined") and q == 0 else [])
            cols[e] = [c.choice(f"e{q}_{j}", vals) if (q == 0 or j < 2) else True for j in range(n)]
        for q, e in enumerate(excl):
            if sum(v is None for v in cols[e]) > 1:
                c.assume(False)
    if c.params["groups"]:
        grp = ["g1" + CSS, "g2" + CSS][:c.params["groups"]]
        for q, g in enumerate(grp):
            vals, cols[g] = [2.5, 1.0, 3.0], []
            if c.params.get("digits"):   # values whose digits run into one another when put side by side
                vals = [1.0, 1.01, 3.0] if q == 0 else [11.0, 1.0]
            for j in range(n):       # up to renaming of the values
                seen = len(set(cols[g]))
                cols[g].append(c.choice(f"g{q}_{j}", vals[:seen + 1]) if q == 0 else c.choice(f"g{q}_{j}", vals[:2]) if j < 2 else vals[0])
    k = c.choice("n_splits", c.params["splits"])
    thr = c.real("drop_split_threshold", 0, 1) if grp and excl else 0.5
    impute = c.choice("impute", ["median", "mean"] if c.params.get("holes") else ["median"])
    fm = real_matrix(c, {x: [NAN if v is None else v for v in vs] for x, vs in cols.items()}, rows)
    if list(fm.matrix.index) != rows:
        raise AssertionError("harness: order of the rows")
    gval = [tuple(cols[g][j] for g in grp) for j in range(n)]
    inc = [j for j in range(n) if all(cols[e][j] is True for e in excl)]
    if grp and excl:
        out = []
        for v in dict.fromkeys(gval):
            tot, have = sum(x == v for x in gval), sum(gval[j] == v for j in inc)
            if have < tot and bool(have / tot < thr):
                out.append(v)
        inc = [j for j in inc if gval[j] not in out]
    units = len({gval[j] for j in inc}) if grp else len(inc)
    kw = dict(train_feature_drop_nan_thresh=0.5, train_sample_drop_nan_thresh=0.0, n_splits=k, impute_strategy=impute,
              random_state=c.choice("seed", c.params["seeds"]), drop_split_threshold=thr)
    if grp:
        kw["split_columns"] = grp
    if excl:
        kw["exclusion_columns"] = excl
    r, s = raises((BEEPDataSplitterError,), lambda: BEEPDataSplitter(fm, [x for x in names], ["t" + CSS], **kw))
    c.require("refused exactly when fewer than two samples remain", r == (len(inc) < 2))
    if r or len(inc) < 2:
        c.cover("refused")
        return
    c.require("samples", list(s.X.index) == [rows[j] for j in inc])
    for x in names:
        xs = cols[x]
        w = {"median": l_median, "mean": l_mean}[impute](xs)
        c.require(f"values of {x[:2]}", all_of([same_cell(s.X[x].iloc[p], w if is_nan(xs[j]) is True else xs[j])
                                                for p, j in enumerate(inc)]))
    if units < k:
        c.cover("too few for the folds")
        return
    groups = {rows[j]: gval[j] for j in inc} if grp else None
    sets = s.split()
    check_sets(c, "split", s, sets, k, groups)
    same_sets(c, "split again", sets, s.split())
    with scratch(c) as d:
        f = d.path("s.json")
        s.to_json_file(f)
        z = BEEPDataSplitter.from_json_file(f)
    c.require("same type after the file", type(z).__name__ == "BEEPDataSplitter")
    same_sets(c, "after the file", sets, z.datasets)
    for a, b, l in ((s.X[s.feature_labels], z.X[z.feature_labels], "X"), (s.y, z.y, "y")):
        for m, t in same_frame(b, snapshot(a)):
            c.require(f"{l} after the file: {m}", t)
        c.require(f"{l} samples after the file", list(a.index) == list(b.index))
    same_sets(c, "split after the file", sets, z.split())
    c.cover("split")


def missing_columns(c):
    """a column that is not there is refused"""
    from beep.prediction.beep_data_splitter import BEEPDataSplitter, BEEPDataSplitterError
    x = [c.real(f"x{j}", -5, 5) for j in range(3)]
    fm = matrix_of(c, {"f" + SUF: x, "t" + SUF: x[::-1], "e" + SUF: [True] * 3, "g" + SUF: [1.0, 2.0, 1.0]}, ["a", "b", "c"])
    which = c.choice("missing", ["none", "features", "targets", "split_columns", "exclusion_columns"])
    kw = dict(features=["f::Cls"], targets=["t::Cls"], split_columns=["g::Cls"], exclusion_columns=["e::Cls"])
    if which != "none":
        kw[which] = kw[which] + ["other::Cls"] if c.choice("beside", [True, False]) else ["f"]
    r, _ = raises((BEEPDataSplitterError,), lambda: BEEPDataSplitter(fm, **kw))
    c.require("a required column that is missing is refused", r == (which != "none"))
    c.cover("missing" if r else "complete")


def harnesses(tier):
    q = tier == "quick"
    def pt():
        return mem_patches() + monty_patches()
    hs = [dict(name=f"clean-{i}", fn=clean, params=p, patches=pt, weight=3, max_paths=6000, max_s=600) for i, p in enumerate([
        dict(n=3, features=2, targets=1, kinds=["value", "nan"], holes=[0, 1]),
        dict(n=4, features=1, targets=1, kinds=["value", "nan", "inf"], holes=[0, 1]),
        dict(n=3, features=1, targets=2, kinds=["value", "-inf"], holes=[2])] + ([] if q else [
            dict(n=4, features=2, targets=1, kinds=["value", "nan"], holes=[0, 1, 2])]))]
    hs += [dict(name=f"split-{i}", fn=split, params=p, patches=pt, weight=3, max_paths=6000, max_s=600) for i, p in enumerate([
        dict(n=4, exclude=0, groups=0, splits=[2, 3], seeds=[10, 0, 3], holes=1),
        dict(n=4, exclude=1, groups=0, splits=[2], seeds=[10], undetermined=True),
        dict(n=3, exclude=2, groups=0, splits=[2], seeds=[10, 1], holes=1),
        dict(n=4, exclude=0, groups=2, splits=[2], seeds=[10]),
        dict(n=4, exclude=0, groups=2, splits=[2], seeds=[10], digits=True),
        dict(n=4, exclude=1, groups=1, splits=[2], seeds=[10])] + ([] if q else [
            dict(n=5, exclude=1, groups=1, splits=[2, 3], seeds=[10]),
            dict(n=5, exclude=0, groups=2, splits=[2, 3], seeds=[10, 4])]))]
    return hs + [dict(name="missing", fn=missing_columns, params={}, patches=pt)]
