"""Environment stubs that let proxies pass the C boundary of numpy / pandas.

Each replacement delegates to the original unless a proxy is among the values; with proxies it
computes the same mathematical function over terms.  Nothing in /repo is edited: the stubs sit in
numpy/pandas and in the *names* `float`, `int`, `max`, `min`, `round` the beep modules look up."""
import builtins
import contextlib
import datetime
import math
import re
import sys
import time as _time

import numpy as np
import pandas as pd
from pandas.core import nanops

from . import core
from .core import SymNum, SymBool, symbolic, smax, smin, ite, is_nan, pyval, z3


def has_sym(v):
    if symbolic(v):
        return True
    if isinstance(v, np.ndarray):
        return v.dtype == object and any(symbolic(x) for x in v.ravel())
    if isinstance(v, (pd.Series, pd.Index)):
        return v.dtype == object and any(symbolic(x) for x in v.values.ravel())
    if isinstance(v, pd.DataFrame):
        return any(has_sym(v.iloc[:, i]) for i in range(v.shape[1]))
    if isinstance(v, (list, tuple)):
        return any(has_sym(x) for x in v)
    return False


# ---------------------------------------------------------------- builtins seen by beep modules

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.float) or (builtins.isinstance(x, SymNum) and not x.is_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(metaclass=_FloatMeta):
    dtype = np.dtype("float64")

    def __new__(cls, v=0.0):
        return to_float(v)


def one(v):
    if builtins.isinstance(v, (np.ndarray, pd.Series)) and getattr(v, "dtype", None) == object \
            and v.size == 1:
        v = v.ravel()[0] if builtins.isinstance(v, np.ndarray) else v.iloc[0]
    return v


def to_float(v):
    v = one(v)
    if builtins.isinstance(v, SymNum):
        return SymNum(core.real(v.t))
    if builtins.isinstance(v, SymBool):
        return SymNum(core.real(core.term(v)))
    if builtins.isinstance(v, str) and core.CTX is not None and core.CTX.symbolic:
        s = core.CTX.untoken(v)
        if s is not None:
            return SymNum(core.real(s.t))
    return builtins.float(v)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int) or (builtins.isinstance(x, SymNum) and x.is_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class SymInt(metaclass=_IntMeta):
    dtype = np.dtype("int64")

    def __new__(cls, v=0, *a):
        v = one(v)
        if builtins.isinstance(v, SymNum):
            return core.trunc(v)
        if builtins.isinstance(v, SymBool):
            return SymNum(core.term(v))
        if builtins.isinstance(v, str) and core.CTX is not None and core.CTX.symbolic:
            s = core.CTX.untoken(v)
            if s is not None:
                if s.is_int:
                    return s
                if not core.CTX.branch(z3.IsInt(s.t)):
                    raise ValueError(f"invalid literal for int() with base 10: {v!r}")
                return SymNum(z3.simplify(z3.ToInt(s.t)))
        return builtins.int(v, *a)


def sym_max(*a, **k):
    if not k and (len(a) > 1 or has_sym(list(a[0]) if not hasattr(a[0], "__next__") else ())):
        vals = list(a) if len(a) > 1 else list(a[0])
        if any(symbolic(v) for v in vals) and not any(is_nan(v) for v in vals):
            return smax(vals)
        return builtins.max(vals)
    return builtins.max(*a, **k)


def sym_min(*a, **k):
    if not k and (len(a) > 1 or has_sym(list(a[0]) if not hasattr(a[0], "__next__") else ())):
        vals = list(a) if len(a) > 1 else list(a[0])
        if any(symbolic(v) for v in vals) and not any(is_nan(v) for v in vals):
            return smin(vals)
        return builtins.min(vals)
    return builtins.min(*a, **k)


def sym_round(x, nd=None):
    x1 = one(x)
    if builtins.isinstance(x1, SymNum):
        return core.sround(x1, nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


BUILTINS = {"float": SymFloat, "int": SymInt, "max": sym_max, "min": sym_min, "round": sym_round}


# ---------------------------------------------------------------- time formatting

class SymTime:
    """gmtime of a symbolic number of seconds (truncated), within one era."""
    def __init__(self, secs):
        self.secs = core.trunc(secs) if not secs.is_int else secs


class TimeStub:
    def __getattr__(self, k):
        return getattr(_time, k)

    @staticmethod
    def gmtime(v=None):
        v = pyval(v)
        if builtins.isinstance(v, SymNum):
            return SymTime(v)
        return _time.gmtime(v)

    @staticmethod
    def strftime(fmt, t=None):
        if builtins.isinstance(t, SymTime):
            s = t.secs
            out = ""
            i = 0
            while i < len(fmt):
                if fmt[i] == "%":
                    c = fmt[i + 1]
                    if c == "H":
                        out += format((s // 3600) % 24, "02d")
                    elif c == "M":
                        out += format((s // 60) % 60, "02d")
                    elif c == "S":
                        out += format(s % 60, "02d")
                    elif c == "T":
                        out += TimeStub.strftime("%H:%M:%S", t)
                    else:
                        raise core.Unsupported(f"strftime %{c} of a symbolic time")
                    i += 2
                else:
                    out += fmt[i]
                    i += 1
            return out
        return _time.strftime(fmt, t) if t is not None else _time.strftime(fmt)


# ---------------------------------------------------------------- pandas reductions

def _flat(values, axis):
    """values (object array) -> (list of lanes, shape of result or None for a scalar)."""
    if values.ndim == 1:
        return [list(values)], None
    if axis is None:
        return [list(values.ravel())], None
    v = np.moveaxis(values, axis, -1)
    shp = v.shape[:-1]
    return [list(r) for r in v.reshape(-1, v.shape[-1])], shp


def _wrap(res, shp):
    if shp is None:
        return res[0]
    out = np.empty(len(res), dtype=object)
    for i, r in enumerate(res):
        out[i] = r
    return out.reshape(shp)


def l_sum(v, skipna=True, min_count=0):
    w = [x for x in v if not is_nan(x)]
    if not skipna and len(w) < len(v):
        return math.nan
    if len(w) < min_count:
        return math.nan
    r = 0.0
    for x in w:
        r = x + r
    return r


def l_mean(v, skipna=True):
    w = [x for x in v if not is_nan(x)]
    if not w or (not skipna and len(w) < len(v)):
        return math.nan
    return l_sum(w) / len(w)


def l_max(v, skipna=True):
    w = [x for x in v if not is_nan(x)]
    if not w or (not skipna and len(w) < len(v)):
        return math.nan
    return smax(w)


def l_min(v, skipna=True):
    w = [x for x in v if not is_nan(x)]
    if not w or (not skipna and len(w) < len(v)):
        return math.nan
    return smin(w)


def l_sorted(w):
    """A non-forking odd-even sorting network."""
    w = list(w)
    n = len(w)
    for p in range(n):
        for i in range(p % 2, n - 1, 2):
            a, b = w[i], w[i + 1]
            c = a <= b
            w[i], w[i + 1] = ite(c, a, b), ite(c, b, a)
    return w


def l_median(v, skipna=True):
    w = [x for x in v if not is_nan(x)]
    if not w or (not skipna and len(w) < len(v)):
        return math.nan
    s = l_sorted(w)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def l_var(v, skipna=True, ddof=1):
    w = [x for x in v if not is_nan(x)]
    if len(w) - ddof <= 0 or (not skipna and len(w) < len(v)):
        return math.nan
    m = l_mean(w)
    return l_sum([(x - m) * (x - m) for x in w]) / (len(w) - ddof)


def l_std(v, skipna=True, ddof=1):
    r = l_var(v, skipna, ddof)
    return r.sqrt() if isinstance(r, SymNum) else (math.nan if is_nan(r) else math.sqrt(r))


def l_prod(v, skipna=True):
    r = 1.0
    for x in v:
        if is_nan(x):
            if not skipna:
                return math.nan
            continue
        r = x * r
    return r


def _nan_red(orig, lane, **extra):
    def f(values, *, axis=None, skipna=True, mask=None, **k):
        if getattr(values, "dtype", None) == object and has_sym(np.asarray(values)):
            kw = {n: k[n] for n in extra if n in k}
            lanes, shp = _flat(np.asarray(values), axis)
            return _wrap([lane(x, skipna, **kw) for x in lanes], shp)
        if mask is not None:
            k["mask"] = mask
        return orig(values, axis=axis, skipna=skipna, **k)
    return f


def _np_red(orig, lane, skipna):
    def f(a, axis=None, *args, **k):
        if has_sym(a):
            arr = np.asarray(a, dtype=object)
            kw = {"ddof": k["ddof"]} if "ddof" in k else {}
            lanes, shp = _flat(arr, axis)
            return _wrap([lane(x, skipna, **kw) for x in lanes], shp)
        return orig(a, axis, *args, **k)
    return f


def _np_elem(orig, f1):
    def f(a, *args, **k):
        if has_sym(a):
            if symbolic(a):
                return f1(a, *args)
            arr = np.asarray(a, dtype=object)
            out = np.empty(arr.shape, dtype=object)
            for i in np.ndindex(arr.shape):
                out[i] = f1(arr[i], *args) if symbolic(arr[i]) else orig(arr[i], *args)
            return wrap_like(a, out)
        return orig(a, *args, **k)
    return f


def wrap_like(a, out):
    if isinstance(a, pd.Series):
        return pd.Series(out, index=a.index, name=a.name)
    if isinstance(a, pd.DataFrame):
        return pd.DataFrame(out, index=a.index, columns=a.columns)
    return out


def _np_pred(orig, val):
    """isnan / isfinite / isinf: proxies are finite."""
    def f(a, *args, **k):
        if symbolic(a):
            return val
        arr = a.values if isinstance(a, (pd.Series, pd.DataFrame)) else np.asarray(a)
        if arr.dtype == object:
            out = np.zeros(arr.shape, dtype=bool)
            for i in np.ndindex(arr.shape):
                x = arr[i]
                out[i] = val if symbolic(x) else bool(orig(builtins.float("nan") if x is None else x))
            if arr.ndim == 0:
                return bool(out[()])
            return wrap_like(a, out)
        return orig(a, *args, **k)
    return f


def np_round(orig):
    def f(a, decimals=0, *args, **k):
        if has_sym(a):
            g = lambda x: core.sround(x, decimals, keep_real=True) if symbolic(x) else \
                builtins.round(x, decimals)
            if symbolic(a):
                return g(a)
            arr = np.asarray(a, dtype=object)
            out = np.empty(arr.shape, dtype=object)
            for i in np.ndindex(arr.shape):
                out[i] = g(arr[i])
            return wrap_like(a, out)
        return orig(a, decimals, *args, **k)
    return f


class np_logical:
    """a numpy logical ufunc that decides symbolic operands first"""
    def __init__(self, orig):
        self.orig = orig

    def __getattr__(self, k):
        return getattr(self.orig, k)

    def __call__(self, *a, **k):
        orig = self.orig
        if any(has_sym(x) for x in a):
            def dec(x):
                arr = np.array(x, dtype=object)
                return np.array([bool(y) for y in arr.ravel()], dtype=bool).reshape(arr.shape)
            r = orig(*[dec(x) for x in a], **k)
            for x in a:
                if isinstance(x, pd.Series):
                    return pd.Series(r, index=x.index)
            return r
        return orig(*a, **k)


def np_nan_to_num(orig):
    """missing entries of an object array become the given number"""
    def f(x, copy=True, nan=0.0, posinf=None, neginf=None):
        a = np.asarray(x)
        if a.dtype != object:
            return orig(x, copy, nan, posinf, neginf)

        def one(v):
            if core.symbolic(v):
                m = core.is_nan(v)
                return nan if m is True else v if m is False else core.ite(m, nan, v)
            return orig(np.float64(v), True, nan, posinf, neginf) if v is not None else nan
        out = np.empty(a.shape, dtype=object)
        for i, v in np.ndenumerate(a):
            out[i] = one(v)
        return out
    return f


def np_heaviside(orig):
    def f(x, h0, *args, **k):
        if has_sym(x) or has_sym(h0):
            xa = np.asarray(x, dtype=object)
            out = np.empty(xa.shape, dtype=object)
            for i in np.ndindex(xa.shape):
                v = xa[i]
                out[i] = ite(v < 0, 0.0, ite(v > 0, 1.0, h0)) if not is_nan(v) else math.nan
            return out if xa.ndim else out[()]
        return orig(x, h0, *args, **k)
    return f


def lin_at(xq, x, y, left, right):
    """piecewise linear interpolation at xq on increasing knots, as one term; left/right are
    values or None to extrapolate."""
    n = len(x)
    if n == 1:
        if left is None:
            return y[0]
        return y[0] if xq == x[0] else (left if xq < x[0] else right)

    def seg(i):
        return y[i] + (y[i + 1] - y[i]) * (xq - x[i]) / (x[i + 1] - x[i])
    if xq < x[0]:
        return left if left is not None else seg(0)
    if xq > x[n - 1]:
        return right if right is not None else seg(n - 2)
    for i in range(n - 1):
        if xq <= x[i + 1]:
            # two equal abscissae: numpy takes the later ordinate; only reachable at the knot
            if x[i + 1] == x[i]:
                return y[i + 1]
            # a knot next to a missing one: numpy takes the knot's ordinate, unless it extrapolates
            if left is not None and (_nan(y[i]) or _nan(y[i + 1])):
                if not _nan(y[i + 1]) and xq == x[i + 1]:
                    return y[i + 1]
                if not _nan(y[i]) and xq == x[i]:
                    return y[i]
            return seg(i)
    return y[n - 1]


def _nan(v):
    return isinstance(v, builtins.float) and v != v


def np_interp(orig):
    def f(x, xp, fp, left=None, right=None, period=None):
        if has_sym(x) or has_sym(xp) or has_sym(fp):
            xs, ys = list(np.asarray(xp, dtype=object)), list(np.asarray(fp, dtype=object))
            lo = ys[0] if left is None else left
            hi = ys[-1] if right is None else right
            q = np.asarray(x, dtype=object)
            out = np.empty(q.shape, dtype=object)
            for i in np.ndindex(q.shape):
                out[i] = lin_at(q[i], xs, ys, lo, hi)
            return out if q.ndim else out[()]
        return orig(x, xp, fp, left, right, period)
    return f


class SymInterp1d:
    """scipy.interpolate.interp1d(kind='linear') over terms."""
    def __init__(self, x, y, bounds_error=None, fill_value=math.nan, assume_sorted=False):
        xs, ys = list(np.asarray(x, dtype=object)), list(np.asarray(y, dtype=object))
        if len(xs) != len(ys):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if len(xs) < 1:
            raise ValueError("x and y arrays must have at least 1 entries")
        if not assume_sorted:
            import functools
            idx = sorted(range(len(xs)), key=functools.cmp_to_key(
                lambda i, j: -1 if xs[i] < xs[j] else (1 if xs[j] < xs[i] else i - j)))
            xs, ys = [xs[i] for i in idx], [ys[i] for i in idx]
        self.x, self.y = xs, ys
        self.extrapolate = isinstance(fill_value, str) and fill_value == "extrapolate"
        self.fill = fill_value
        if bounds_error is None:
            bounds_error = not self.extrapolate and isinstance(fill_value, builtins.float) and math.isnan(fill_value)
        self.bounds_error = bounds_error

    def __call__(self, q):
        qa = np.asarray(q, dtype=object)
        out = np.empty(qa.shape, dtype=object)
        if self.extrapolate:
            lo = hi = None
        elif isinstance(self.fill, tuple):
            lo, hi = self.fill
        else:
            lo = hi = self.fill
        for i in np.ndindex(qa.shape):
            v = qa[i]
            if self.bounds_error and not self.extrapolate:
                if v < self.x[0]:
                    raise ValueError("A value in x_new is below the interpolation range.")
                if v > self.x[-1]:
                    raise ValueError("A value in x_new is above the interpolation range.")
            out[i] = lin_at(v, self.x, self.y, lo, hi)
        return out


class SplineInterp1d:
    """interp1d of kind quadratic or cubic at concrete points: linear in the values, so the weights come from scipy itself"""
    def __init__(self, orig, x, y, kind, bounds_error, fill_value):
        if not (isinstance(fill_value, str) and fill_value == "extrapolate"):
            raise core.Unsupported("spline interpolation with a fill value")
        xs, self.y = [builtins.float(v) for v in np.asarray(x, dtype=object)], list(np.asarray(y, dtype=object))
        n = len(xs)
        self.f = [orig(xs, [1.0 if j == i else 0.0 for j in range(n)], kind=kind, bounds_error=bounds_error,
                       fill_value=fill_value) for i in range(n)]

    def __call__(self, q):
        if has_sym(q):
            raise core.Unsupported("spline interpolation at symbolic points")
        qa = np.asarray(q, dtype=builtins.float)
        w = [f(qa) for f in self.f]
        out = np.empty(qa.shape, dtype=object)
        for i in np.ndindex(qa.shape):
            tot = 0.0
            for wj, yj in zip(w, self.y):
                tot = tot + builtins.float(wj[i]) * yj
            out[i] = tot
        return out


def make_interp1d(orig):
    def interp1d(x, y, kind="linear", axis=-1, copy=True, bounds_error=None,
                 fill_value=math.nan, assume_sorted=False):
        if has_sym(x) or has_sym(y):
            if kind in ("quadratic", 2, "cubic", 3) and not has_sym(x):
                return SplineInterp1d(orig, x, y, kind, bounds_error, fill_value)
            if kind not in ("linear", "slinear", 1):
                raise core.Unsupported(f"interp1d kind {kind}")
            return SymInterp1d(x, y, bounds_error, fill_value, assume_sorted)
        f = orig(x, y, kind=kind, axis=axis, copy=copy, bounds_error=bounds_error,
                 fill_value=fill_value, assume_sorted=assume_sorted)

        class W:
            def __call__(self, q):
                if has_sym(q):
                    return SymInterp1d(x, y, bounds_error, fill_value, assume_sorted)(q)
                return f(q)

            def __getattr__(self, k):
                return getattr(f, k)
        return W()
    return interp1d


def np_linspace(orig):
    def f(start, stop, num=50, endpoint=True, *a, **k):
        if symbolic(start) or symbolic(stop):
            num = int(num)
            d = num - 1 if endpoint else num
            out = np.empty(num, dtype=object)
            for i in range(num):
                out[i] = start + (stop - start) * i / d if d else start
            if endpoint and num > 1:
                out[-1] = stop
            return out
        return orig(start, stop, num, endpoint, *a, **k)
    return f


def has_tokens(values):
    c = core.CTX
    if c is None or not c.symbolic or not c.tokens:
        return False
    return any(isinstance(x, str) and any(ch in c.tokens for ch in x) for x in np.asarray(values).ravel())


def _astype_array(orig):
    def f(values, dtype, copy=False):
        if getattr(values, "dtype", None) == object and (has_sym(np.asarray(values)) or has_tokens(values)):
            dt = np.dtype(dtype) if not isinstance(dtype, str) or dtype != "category" else None
            if dt is not None and dt.kind in "fO":
                out = np.array(values, dtype=object, copy=True)
                if dt.kind == "f":
                    for i in np.ndindex(out.shape):
                        out[i] = to_float(out[i])
                return out
            if dt is not None and dt.kind in "iu":
                out = np.array(values, dtype=object, copy=True)
                for i in np.ndindex(out.shape):
                    out[i] = SymInt(out[i])
                return out
        return orig(values, dtype, copy=copy)
    return f


def _to_numeric(orig):
    def f(arg, *a, **k):
        if has_sym(arg):
            return arg
        return orig(arg, *a, **k)
    return f


def np_polyfit(orig):
    def f(x, y, deg, *a, **k):
        if has_sym(y) or has_sym(x):
            if deg != 1:
                raise core.Unsupported("polyfit degree")
            x, y = list(x), list(y)
            n = len(x)
            mx, my = l_mean(x), l_mean(y)
            sxy = l_sum([(p - mx) * (q - my) for p, q in zip(x, y)])
            sxx = l_sum([(p - mx) * (p - mx) for p in x])
            m = sxy / sxx
            return np.array([m, my - m * mx], dtype=object)
        return orig(x, y, deg, *a, **k)
    return f


def sym_isclose(orig):
    def f(a, b, rtol=1e-05, atol=1e-08, *x, **k):
        if has_sym(a) or has_sym(b):
            aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            out = np.empty(aa.shape, dtype=object)
            for i in np.ndindex(aa.shape):
                out[i] = bool(abs(aa[i] - bb[i]) <= atol + rtol * abs(bb[i]))
            return out.astype(bool) if out.ndim else bool(out[()])
        return orig(a, b, rtol, atol, *x, **k)
    return f


def interp_fill(orig, pos):
    """DataFrame/Series.interpolate(method='index'|'values'|'linear'), forward direction."""
    def f(self, method="linear", *a, **k):
        if has_sym(self) or has_sym(self.index):
            if k.pop("axis", 0) not in (0, None, "index"):
                raise core.Unsupported("interpolate axis")
            inplace = k.pop("inplace", False)
            if a or k or inplace:
                raise core.Unsupported(f"interpolate options {a} {k}")
            xs = list(self.index) if method in ("index", "values") else list(range(len(self.index)))
            if isinstance(self, pd.Series):
                return pd.Series(_fill(xs, list(self.values)), index=self.index, name=self.name, dtype=object)
            out = {}
            for i in range(self.shape[1]):
                col = list(self.iloc[:, i].values)
                if any(builtins.isinstance(v, (bool, np.bool_, str)) for v in col):
                    out[i] = pd.Series(col, index=self.index, dtype=object)
                else:
                    out[i] = pd.Series(_fill(xs, col), index=self.index, dtype=object)
            r = pd.DataFrame({i: out[i].values for i in out}, index=self.index)
            r.columns = self.columns
            return r
        return orig(self, method, *a, **k)
    return f


def _fill(xs, col):
    known = [i for i, v in enumerate(col) if not is_nan(v)]
    res = list(col)
    if not known:
        return res
    for i, v in enumerate(col):
        if not is_nan(v):
            continue
        lo = [j for j in known if j < i]
        hi = [j for j in known if j > i]
        if lo and hi:
            a, b = lo[-1], hi[0]
            if xs[b] == xs[a]:
                res[i] = col[b]
            else:
                num, den = xs[i] - xs[a], xs[b] - xs[a]
                if builtins.isinstance(num, (pd.Timedelta, np.timedelta64)):
                    num, den = num / pd.Timedelta(seconds=1), den / pd.Timedelta(seconds=1)
                res[i] = col[a] + (col[b] - col[a]) * num / den
        elif lo:
            res[i] = col[lo[-1]]
    return res


def series_init(orig):
    """Series(data, dtype=<number>) over proxies stays an object column."""
    def __init__(self, data=None, index=None, dtype=None, *a, **k):
        if dtype is not None and isinstance(data, (list, tuple, np.ndarray, pd.Series)) and has_sym(data):
            try:
                dt = np.dtype(dtype)
            except TypeError:
                dt = None
            if dt is not None and dt.kind == "f":
                data = [to_float(x) if core.is_num(x) else x for x in data]
                dtype = object
            elif dt is not None and dt.kind in "iu":
                data = [SymInt(x) for x in data]
                dtype = object
        return orig(self, data, index, dtype, *a, **k)
    return __init__


def wrap_consts(vals):
    """numbers of an object array as proxies, so that hash tables compare them through the solver."""
    out = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        v = pyval(v)
        if not symbolic(v) and core.is_num(v) and not (isinstance(v, builtins.float) and (math.isnan(v) or math.isinf(v))):
            v = SymNum(core.num(v))
        out[i] = v
    return out


def merge_keys(orig):
    def f(self):
        for i in range(len(self.left_join_keys)):
            lk, rk = self.left_join_keys[i], self.right_join_keys[i]
            if has_sym(lk) or has_sym(rk):
                lk, rk = wrap_consts(lk), wrap_consts(rk)
                self.left_join_keys[i], self.right_join_keys[i] = lk, rk
                n = self.join_names[i]
                if n in self.left.columns:
                    self.left = self.left.assign(**{n: lk})
                if n in self.right.columns:
                    self.right = self.right.assign(**{n: rk})
        return orig(self)
    return f


_loaded = []


def load_all():
    """import every beep module once, so that all of them see the patches"""
    if _loaded:
        return
    _loaded.append(1)
    import importlib
    import pkgutil
    import beep
    for m in pkgutil.walk_packages(beep.__path__, "beep.", onerror=lambda n: None):
        if ".tests" in m.name or m.name in ("beep.utils.memprof", "beep.utils.retrigger", "beep.__main__"):
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            pass


@contextlib.contextmanager
def installed(extra=()):
    """Patch numpy/pandas/scipy and the builtins names of all loaded beep modules."""
    load_all()
    saved = []

    def setp(obj, name, val):
        had = name in vars(obj)
        saved.append((obj, name, vars(obj).get(name), had))
        setattr(obj, name, val)

    for n, lane, ex in (("nanmax", l_max, {}), ("nanmin", l_min, {}), ("nanmean", l_mean, {}),
                        ("nansum", l_sum, {"min_count": 0}), ("nanmedian", l_median, {}),
                        ("nanvar", l_var, {"ddof": 1}), ("nanstd", l_std, {"ddof": 1}),
                        ("nanprod", l_prod, {})):
        setp(nanops, n, _nan_red(getattr(nanops, n), lane, **ex))
    for n, lane, sk in (("nanmax", l_max, True), ("nanmin", l_min, True), ("nanmean", l_mean, True),
                        ("nansum", l_sum, True), ("nanmedian", l_median, True),
                        ("median", l_median, False)):
        setp(np, n, _np_red(getattr(np, n), lane, sk))
    for n, lane in (("max", l_max), ("amax", l_max), ("min", l_min), ("amin", l_min),
                    ("mean", l_mean), ("average", l_mean)):
        orig = getattr(np, n)

        def mkf(orig, lane):
            red = _np_red(orig, lane, False)

            def f(a, axis=None, *args, **k):
                if isinstance(a, (pd.Series, pd.DataFrame)):
                    return orig(a, axis, *args, **k) if axis is not None else orig(a, *args, **k)
                return red(a, axis, *args, **k)
            return f
        setp(np, n, mkf(orig, lane))
    for n in ("var", "nanvar"):
        setp(np, n, _np_red(getattr(np, n), lambda v, s=True, ddof=0: l_var(v, s, ddof), n[0] == "n"))
    for n in ("std", "nanstd"):
        setp(np, n, _np_red(getattr(np, n), lambda v, s=True, ddof=0: l_std(v, s, ddof), n[0] == "n"))
    setp(np, "isnan", _np_pred(np.isnan, False))
    setp(np, "isfinite", _np_pred(np.isfinite, True))
    setp(np, "isinf", _np_pred(np.isinf, False))
    for n in ("round", "around", "round_"):
        setp(np, n, np_round(getattr(np, n)))
    for n in ("logical_and", "logical_or", "logical_not", "logical_xor"):
        setp(np, n, np_logical(getattr(np, n)))
    setp(np, "heaviside", np_heaviside(np.heaviside))
    setp(np, "interp", np_interp(np.interp))
    setp(np, "linspace", np_linspace(np.linspace))
    setp(np, "polyfit", np_polyfit(np.polyfit))
    setp(np, "nan_to_num", np_nan_to_num(np.nan_to_num))
    setp(np, "isclose", sym_isclose(np.isclose))
    import pandas.core.dtypes.astype as _as
    import pandas.core.internals.blocks as _bl
    na = _astype_array(_as.astype_array)
    setp(_as, "astype_array", na)
    setp(pd, "to_numeric", _to_numeric(pd.to_numeric))
    import scipy.interpolate
    i1 = make_interp1d(scipy.interpolate.interp1d)
    orig_i1 = scipy.interpolate.interp1d
    setp(scipy.interpolate, "interp1d", i1)
    setp(pd.Series, "__init__", series_init(pd.Series.__init__))
    import pandas.core.reshape.merge as _mg
    setp(_mg._MergeOperation, "_maybe_coerce_merge_keys",
         merge_keys(_mg._MergeOperation._maybe_coerce_merge_keys))
    setp(pd.DataFrame, "interpolate", interp_fill(pd.DataFrame.interpolate, 0))
    setp(pd.Series, "interpolate", interp_fill(pd.Series.interpolate, 0))
    for mn, m in list(sys.modules.items()):
        if m is None or not (mn == "beep" or mn.startswith("beep.")):
            continue
        for k, v in BUILTINS.items():
            if k not in vars(m):
                setp(m, k, v)
        if vars(m).get("interp1d") is orig_i1:
            setp(m, "interp1d", i1)
        if vars(m).get("time") is _time:
            setp(m, "time", TimeStub())
    for obj, name, val in extra:
        setp(obj, name, val)
    try:
        yield
    finally:
        for obj, name, val, had in reversed(saved):
            if had:
                setattr(obj, name, val)
            else:
                delattr(obj, name)
