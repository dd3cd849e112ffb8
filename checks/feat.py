"""Shared by the feature checks: a datapath made of tables, statistics as uninterpreted functions, parameter files."""
import glob as _glob
import fnmatch
import sys
import numpy as np
import scipy.stats
from .common import *
from . import memfs
from .memfs import scratch, mem_patches, table
from symex import core, patches

SKEW, KURT = scipy.stats.skew, scipy.stats.kurtosis


class Datapath:
    """the tables of a structured datapath"""
    is_structured = True
    semiunique_id = "id"

    def __init__(self, protocol="PreDiag_000001.000", **k):
        self.paths = {"structured": "/d/PreDiag_000001_structure.json", "raw": "/d/PreDiag_000001_x.070"}
        self.structured_data = self.structured_summary = self.diagnostic_data = self.diagnostic_summary = None
        self.structuring_parameters = {}

        class M:
            pass
        self.metadata = M()
        self.metadata.raw = {"protocol": protocol}
        self.metadata.protocol = protocol
        self.__dict__.update(k)

    def tables(self):
        return {k: v for k, v in self.__dict__.items() if isinstance(v, pd.DataFrame)}


def keep(c, dp):
    """to call afterwards: the datapath is as it was"""
    before = {k: snapshot(v) for k, v in dp.tables().items()}

    def after():
        now = dp.tables()
        c.require("datapath keeps its tables", sorted(now) == sorted(before))
        for k in before:
            if k in now:
                for l, t in same_frame(now[k], before[k]):
                    c.require(f"datapath {k}: {l}", t)
    return after


def _moment(name, orig):
    def f(a, *args, **k):
        if patches.has_sym(a):
            v = list(np.asarray(a, dtype=object))
            if any(is_nan(x) is True for x in v):
                return float("nan")
            full = dict(zip(("axis", "fisher", "bias") if name == "kurtosis" else ("axis", "bias"), args))
            full.update(k)
            dflt = dict(axis=0, bias=True, nan_policy="propagate")
            if name == "kurtosis":
                dflt["fisher"] = True
            dflt.update(full)
            return core.CTX.uf(f"{name}{len(v)}{sorted(dflt.items())}", *v)
        return orig(a, *args, **k)
    return f


def stat_patches():
    patches.load_all()
    sk, ku = _moment("skew", SKEW), _moment("kurtosis", KURT)
    out = [(scipy.stats, "skew", sk), (scipy.stats, "kurtosis", ku)]
    for mn, m in list(sys.modules.items()):
        if m is not None and mn.startswith("beep."):
            if vars(m).get("skew") is SKEW:
                out.append((m, "skew", sk))
            if vars(m).get("kurtosis") is KURT:
                out.append((m, "kurtosis", ku))
    return out


def stats_of(arr):
    """{name: value} of the statistics, from their definitions"""
    a = np.array(list(arr), dtype=object) if patches.has_sym(arr) else np.array(list(arr), dtype=float)
    out = {"var": np.var(a), "min": smin(list(a)) if patches.has_sym(a) else a.min(), "mean": np.mean(a),
           "skew": scipy.stats.skew(a), "kurtosis": scipy.stats.kurtosis(a, fisher=False, bias=False),
           "abs": np.sum(np.absolute(a)), "square": np.sum(np.square(a))}
    return out


def log10(v):
    with np.errstate(all="ignore"):
        return np.log10(np.absolute(v))


def _mem_glob(orig):
    def g(pattern, *a, **k):
        key = memfs._key(pattern)
        if key is not None:
            return [p for p in sorted(memfs.STORE) if fnmatch.fnmatch(p, key) and
                    p.count("/") == key.count("/")]
        return orig(pattern, *a, **k)
    return g


def glob_patches():
    patches.load_all()
    g = _mem_glob(_glob.glob)
    out = [(_glob, "glob", g)]
    for mn, m in list(sys.modules.items()):
        if m is not None and mn.startswith("beep.") and vars(m).get("glob") is _glob.glob:
            out.append((m, "glob", g))
    return out


def feature_patches():
    return mem_patches() + glob_patches() + stat_patches()


def logclose(a, b):
    """equal logarithms; concretely, equal arguments (a logarithm near zero magnifies rounding)"""
    a, b = pyval(a), pyval(b)
    if symbolic(a) or symbolic(b) or is_nan(a) or is_nan(b):
        return close(a, b)
    return abs(10.0 ** a - 10.0 ** b) <= 1e-9 * max(1.0, 10.0 ** b)
