"""P19: the feature matrix holds each featurizer's features at their file and column, and survives the file."""
import copy
import numbers
from .common import *
from .memfs import scratch, mem_patches, monty_patches

BOUNDS = {"all": "up to 4 feature vectors over up to 3 files, 2 featurizer classes and 4 hyperparameter settings (numbers, text, lists, "
                 "nested dictionaries), 1-3 features each, every value symbolic or missing; featurizers with any of the "
                 "declared hyperparameters missing"}
OUTSIDE = "features that are not scalars; hyperparameter settings that differ only in 1 versus 1.0 or in delimiter characters inside text"
ASSUMPTIONS = []

HP = [{"k": 1, "w": [1, 2]}, {"w": [1, 2], "k": 1}, {"k": 2, "w": [1, 2]}, {"k": 1, "w": [1, 3]},
      {"k": "1x", "w": {"a": 1}}, {"k": 1.5, "w": None}]
FILES = ["/d/a_structure.json", "/d/b_structure.json", "/e/a_structure.json"]


def classes():
    from beep.features.core import CycleSummaryStats, TrajectoryFastCharge
    return [CycleSummaryStats, TrajectoryFastCharge]


def featurizer(c, cls, hp, path, feats, meta=None):
    import beep.features.core as F
    b = cls(None)
    b.hyperparameters = copy.deepcopy(hp)
    b.features = frame(c, {k: [v] for k, v in feats.items()}) if feats is not None else None
    b.paths = {"structured": path} if path else {}
    b.metadata = meta or {"barcode": "x", "n": [1, 2]}
    b.linked_semiunique_id = "id-" + str(path)
    return b


def val(c, name):
    return float("nan") if c.choice(name + "_nan", [False, True]) else c.real(name, -5, 5)


def lookup(m, path, feature, cls, hps):
    """cells of a file's row in the columns of a feature of a class"""
    rows = [i for i, x in enumerate(m.index) if x == path]
    cols = [j for j, x in enumerate(m.columns) if x.split("::")[0] == feature and x.split("::")[1] == cls.__name__]
    return rows, cols


def check(c, tag, m, vecs):
    files = []
    for v in vecs:
        if v["path"] not in files:
            files.append(v["path"])
    c.require(f"{tag}: one row per file", sorted(map(str, m.index)) == sorted(files))
    groups = []                        # (class, hyperparameters, feature)
    for v in vecs:
        for f in v["feats"]:
            g = (v["cls"], v["hp"], f)
            if g not in groups:
                groups.append(g)
    c.require(f"{tag}: one column per feature, class and hyperparameters", len(m.columns) == len(groups)
              and len(set(m.columns)) == len(groups))
    if len(m.columns) != len(groups) or sorted(map(str, m.index)) != sorted(files):
        return
    col_of = {}
    for cls, hp, f in groups:
        mine = [v for v in vecs if v["cls"] is cls and v["hp"] == hp and f in v["feats"]]
        cand = [j for j, x in enumerate(m.columns) if x.split("::")[0] == f and x.split("::")[1] == cls.__name__]
        # the column of this operation: its cells are the operation's values in its files and missing elsewhere
        conds = []
        for j in cand:
            cells = []
            for i, p in enumerate(m.index):
                w = [v["feats"][f] for v in mine if v["path"] == p]
                cells.append(same_cell(m.iloc[i, j], w[0]) if w else is_nan(m.iloc[i, j]))
            conds.append(all_of(cells))
        c.require(f"{tag}: {f} of {cls.__name__}", any_of(conds) if conds else False)


def matrix(c):
    from beep.features.base import BEEPFeatureMatrix, BEEPFeatureMatrixError
    n = c.params["n"]
    vecs = []
    for i in range(n):
        cls = c.choice(f"class{i}", classes()) if i else classes()[0]
        hp = c.choice(f"hp{i}", HP[:c.params["hps"]]) if i else HP[0]
        path = c.choice(f"file{i}", FILES[:min(i + 1, 3)])
        names = c.params["features"]
        hp = dict(copy.deepcopy(cls.DEFAULT_HYPERPARAMETERS), **hp)
        vecs.append(dict(cls=cls, hp=hp, path=path, feats={f: val(c, f"x{i}_{f}") if i == 0 else c.real(f"x{i}_{f}", -5, 5) for f in names}))
    bs = [featurizer(c, v["cls"], v["hp"], v["path"], v["feats"]) for v in vecs]
    snaps = [(snapshot(b.features), dict(b.paths), copy.deepcopy(b.hyperparameters)) for b in bs]
    dup = any(a["cls"] is b["cls"] and a["hp"] == b["hp"] and a["path"] == b["path"]
              for i, a in enumerate(vecs) for b in vecs[:i])
    r, fm = raises((BEEPFeatureMatrixError,), lambda: BEEPFeatureMatrix(bs))
    c.require("the same operation on the same file twice is refused", r == dup)
    if r or dup:
        c.cover("duplicate")
        return
    check(c, "matrix", fm.matrix, vecs)
    for b, (s, p, h) in zip(bs, snaps):
        for l, t in same_frame(b.features, s):
            c.require(f"featurizer: {l}", t)
        c.require("featurizer keeps its paths and hyperparameters", b.paths == p and b.hyperparameters == h)
    with scratch(c) as d:
        f = d.path("m.json")
        fm.to_json_file(f)
        again = BEEPFeatureMatrix.from_json_file(f)
    c.require("same type after the file", type(again).__name__ == "BEEPFeatureMatrix")
    check(c, "after the file", again.matrix, vecs)
    for l, t in same_frame(again.matrix, snapshot(fm.matrix)):
        c.require(f"after the file: {l}", t)
    c.require("rows after the file", list(again.matrix.index) == list(fm.matrix.index))
    c.require("featurizers after the file", [(type(b).__name__, b.hyperparameters, b.paths, b.metadata) for b in again.featurizers]
              == [(type(b).__name__, b.hyperparameters, b.paths, b.metadata) for b in bs])
    c.cover("joined")


def refused(c):
    """vectors that cannot be joined are refused"""
    from beep.features.base import BEEPFeatureMatrix, BEEPFeatureMatrixError
    kind = c.choice("kind", ["no features", "two rows", "no rows", "no path"])
    at = c.choice("at", [0, 1])
    x = c.real("x", -5, 5)
    bs = [featurizer(c, classes()[i], dict(classes()[i].DEFAULT_HYPERPARAMETERS), FILES[i], {"f": x}) for i in range(2)]
    b = bs[at]
    if kind == "no features":
        b.features = None
    elif kind == "two rows":
        b.features = frame(c, {"f": [x, x]})
    elif kind == "no rows":
        b.features = b.features.iloc[:0]
    else:
        b.paths = {}
    r, _ = raises((BEEPFeatureMatrixError,), lambda: BEEPFeatureMatrix(bs))
    c.require("refused", r)
    c.require("no featurizers, no matrix", BEEPFeatureMatrix([]).matrix is None)
    c.cover("reached")


def vector(c):
    """a feature vector survives serialisation; hyperparameters are complete and its own"""
    from beep.features.base import BEEPFeaturizationError
    import beep.features.core as F
    cls = c.choice("class", [x for x in vars(F).values() if isinstance(x, type) and issubclass(x, F.BEEPFeaturizer) and x is not F.BEEPFeaturizer])
    keys = list(cls.DEFAULT_HYPERPARAMETERS)
    drop = c.choice("drop", [None] + keys)
    hp = {k: copy.deepcopy(v) for k, v in cls.DEFAULT_HYPERPARAMETERS.items() if k != drop}
    hp[keys[0]] = c.choice("value", [7, "text", [1, 2]]) if drop != keys[0] else 0
    if drop == keys[0]:
        del hp[keys[0]]
    if not hp:
        return
    for k in range(c.choice("names that are not declared", [0, 1, 2])):
        hp[f"extra_{k}"] = k
    r, b = raises((BEEPFeaturizationError,), lambda: cls(None, copy.deepcopy(hp)))
    c.require("incomplete hyperparameters are refused", r == (drop is not None))
    if r:
        c.cover("incomplete")
        return
    c.require("hyperparameters as given", b.hyperparameters == hp)
    c.require("defaults otherwise", cls(None).hyperparameters == cls.DEFAULT_HYPERPARAMETERS and cls(None, {}).hyperparameters == cls.DEFAULT_HYPERPARAMETERS)
    r, _ = raises((BEEPFeaturizationError,), b.as_dict)
    c.require("without features nothing is serialised", r)
    feats = {"u": val(c, "u"), "v": c.real("v", -5, 5), "w": c.choice("w", [True, "text", 3])}
    b.features = frame(c, {k: [v] for k, v in feats.items()})
    b.paths, b.metadata, b.linked_semiunique_id = {"structured": "/a", "raw": "/r"}, {"barcode": "z", "n": 1}, "id-7"
    s = snapshot(b.features)
    with scratch(c) as d:
        f = d.path("v.json")
        b.to_json_file(f)
        z = cls.from_json_file(f)
        zs = [("dict", cls.from_dict(b.as_dict())), ("file", z)]
        for tag, z in zs:
            for l, t in same_frame(z.features, s):
                c.require(f"{tag}: {l}", t)
            want = {"structured": "/a", "raw": "/r"}
            got = dict(z.paths)
            if tag == "file":
                c.require("the file is recorded", str(got.pop("features", "")).endswith("v.json"))
            c.require(f"{tag}: paths", got == want)
            c.require(f"{tag}: attributes", (z.metadata, z.hyperparameters, z.linked_semiunique_id, type(z)) ==
                      ({"barcode": "z", "n": 1}, hp, "id-7", cls))
    c.cover("survived")


class FakeDatapath:
    pass


def from_datapath(c):
    """a featurizer takes structured datapaths only, and their paths, metadata and id"""
    from beep.features.base import BEEPFeaturizationError
    dp = FakeDatapath()
    dp.is_structured = c.choice("structured", [True, False])
    dp.paths = {"structured": "/a", "raw": "/r"}
    dp.metadata = FakeDatapath()
    dp.metadata.raw = {"x": c.real("x", 0, 1)}
    dp.semiunique_id = "id"
    cls = c.choice("class", classes())
    r, b = raises((BEEPFeaturizationError,), lambda: cls(dp))
    c.require("unstructured datapaths are refused", r == (not dp.is_structured))
    if not r:
        c.require("attributes", b.paths == dp.paths and b.metadata == dp.metadata.raw and b.linked_semiunique_id == "id"
                  and b.datapath is dp and b.features is None)
    c.cover("reached")


def pats():
    return mem_patches() + monty_patches()


def harnesses(tier):
    deep = tier == "thorough"
    H = [dict(name="matrix_2", fn=matrix, params=dict(n=2, hps=6, features=["f", "g"]), patches=pats, weight=3),
         dict(name="matrix_3", fn=matrix, params=dict(n=3, hps=4 if deep else 3, features=["f"]), patches=pats, weight=5),
         dict(name="refused", fn=refused, params={}, patches=pats, weight=1),
         dict(name="vector", fn=vector, params={}, patches=pats, weight=2),
         dict(name="from_datapath", fn=from_datapath, params={}, patches=pats, weight=1)]
    if deep:
        H.append(dict(name="matrix_4", fn=matrix, params=dict(n=4, hps=3, features=["f"]), patches=pats, weight=8, max_paths=20000))
    return H
