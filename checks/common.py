"""Shared building blocks of the harnesses."""
import logging
import math
import os
import sys
import warnings

warnings.filterwarnings("ignore")

import numpy as np
import pandas as pd

import beep
from symex import core
from symex.core import (SymNum, SymBool, symbolic, smax, smin, ite, all_of, any_of, not_, implies,
                        is_nan, close, pyval)
from symex import patches

logging.disable(logging.CRITICAL)
if hasattr(beep, "logger"):
    beep.logger.disabled = True


# ------------------------------------------------------------------ timestamps

class SymDelta:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __truediv__(self, o):
        if isinstance(o, np.timedelta64):
            return self.s / (o / np.timedelta64(1, "s"))
        if isinstance(o, pd.Timedelta):
            return self.s / o.total_seconds()
        return SymDelta(self.s / o)

    def total_seconds(self):
        return self.s

    def _o(self, o):
        return o.s if isinstance(o, SymDelta) else pd.Timedelta(o).total_seconds()

    def __add__(self, o):
        if isinstance(o, SymStamp):
            return SymStamp(self.s + o.s)
        return SymDelta(self.s + self._o(o))
    __radd__ = __add__

    def __sub__(self, o):
        return SymDelta(self.s - self._o(o))

    def __gt__(self, o):
        return self.s > self._o(o)

    def __lt__(self, o):
        return self.s < self._o(o)

    def __ge__(self, o):
        return self.s >= self._o(o)

    def __le__(self, o):
        return self.s <= self._o(o)

    def __eq__(self, o):
        return isinstance(o, SymDelta) and self.s == o.s

    def __hash__(self):
        return 0


class SymStamp:
    """A point in time, symbolic seconds since the epoch (UTC)."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __sub__(self, o):
        if o is pd.NaT or (isinstance(o, float) and math.isnan(o)):
            return pd.NaT
        if isinstance(o, SymStamp):
            return SymDelta(self.s - o.s)
        if isinstance(o, SymDelta):
            return SymStamp(self.s - o.s)
        return SymDelta(self.s - pd.Timestamp(o).timestamp())

    def __rsub__(self, o):
        if o is pd.NaT or (isinstance(o, float) and math.isnan(o)):
            return pd.NaT
        return SymDelta(pd.Timestamp(o).timestamp() - self.s)

    def timetuple(self):
        return self

    def timestamp(self):
        return self.s

    def __eq__(self, o):
        return self.s == o.s if isinstance(o, SymStamp) else False

    def __lt__(self, o):
        return self.s < o.s

    def __gt__(self, o):
        return self.s > o.s

    def __hash__(self):
        return 0


class StampTime(patches.TimeStub):
    @staticmethod
    def mktime(t):
        if isinstance(t, SymStamp):
            return t.s
        import time
        return time.mktime(t)


def stamp_patches():
    """pd.to_datetime and time.mktime over symbolic timestamps."""
    import beep.structure.base as B
    orig = pd.to_datetime

    def to_datetime(arg, *a, **k):
        if isinstance(arg, (pd.Series, list)) and any(isinstance(x, SymStamp) for x in arg):
            vals = [pd.NaT if (not isinstance(x, SymStamp) and pd.isna(x)) else x for x in arg]
            if isinstance(arg, list):
                return vals
            return pd.Series(vals, index=arg.index, name=arg.name, dtype=object)
        if isinstance(arg, SymStamp):
            return arg
        return orig(arg, *a, **k)
    out = [(pd, "to_datetime", to_datetime)]
    if "time" in vars(B):
        out.append((B, "time", StampTime()))
    return out


T0 = 1500000000


def stamp(c, secs):
    """An ISO timestamp `secs` seconds after T0 (string when concrete)."""
    if c.symbolic:
        s = secs if symbolic(secs) else core.SymNum(core.num(secs))
        return SymStamp(s + T0)
    return pd.Timestamp(T0 + float(secs), unit="s", tz="UTC").isoformat()


def stamp_secs(v):
    """seconds since T0 of a timestamp cell."""
    if isinstance(v, SymStamp):
        return v.s - T0
    return pd.Timestamp(v).timestamp() - T0


# ------------------------------------------------------------------ frames

def col(c, vals, dtype=None):
    vals = list(vals)
    if c.symbolic:
        if any(symbolic(v) or isinstance(v, (SymStamp, SymDelta)) for v in vals):
            return pd.Series(vals, dtype=object)
        return pd.Series(vals) if dtype is None else pd.Series(vals, dtype=dtype)
    return pd.Series(vals) if dtype is None else pd.Series(vals, dtype=dtype)


def frame(c, cols, index=None):
    df = pd.DataFrame({k: col(c, v) for k, v in cols.items()})
    if index is not None:
        df.index = index
    return df


def snapshot(df):
    """A structural copy that later mutation of df cannot reach."""
    return {"columns": list(df.columns), "index": list(df.index),
            "data": {k: list(df[k].values) for k in df.columns}}


def same_cell(a, b, tol=1e-9):
    a, b = pyval(a), pyval(b)
    if isinstance(a, (SymStamp,)) or isinstance(b, SymStamp):
        return isinstance(a, SymStamp) and isinstance(b, SymStamp) and close(a.s, b.s, tol)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a is None or b is None:
        return a is None and b is None or (is_nan(a) and is_nan(b))
    try:
        return close(a, b, tol)
    except TypeError:
        return a == b


def same_frame(df, snap, tol=1e-9, ordered=True):
    """[(label, cond)] that df equals a snapshot."""
    out = [("same columns", (list(df.columns) == snap["columns"]) if ordered
            else sorted(map(str, df.columns)) == sorted(map(str, snap["columns"]))),
           ("same number of rows", len(df) == len(snap["index"]))]
    if not all(bool(x) for _, x in out):
        return out
    for k in snap["columns"]:
        out.append((f"column {k} unchanged",
                    all_of([same_cell(a, b, tol) for a, b in zip(df[k].values, snap["data"][k])])))
    return out


def strictly_increasing(c, xs, gap=None):
    for a, b in zip(xs, xs[1:]):
        c.assume(b >= a + gap if gap else b > a)


def non_decreasing(c, xs):
    for a, b in zip(xs, xs[1:]):
        c.assume(b >= a)


def datapath_class():
    from beep.structure.base import BEEPDatapath

    class HarnessDatapath(BEEPDatapath):
        @classmethod
        def from_file(cls, path, *a, **k):
            raise NotImplementedError
    return HarnessDatapath


def make_datapath(raw, **kw):
    return datapath_class()(raw_data=raw, metadata=kw.pop("metadata", {"barcode": "b", "protocol": "p",
                                                                    "channel_id": 1}), **kw)


def raises(exc_types, fn):
    """(raised, result)"""
    try:
        return False, fn()
    except exc_types:
        return True, None
