"""Independent reference formulas (written from the documentation, not the code)."""
from .common import *


def lin(xq, x, y):
    """piecewise-linear reference on increasing knots: ('nan'|'val'|'eq', ...) as a list of
    obligations for a result value `got`."""
    def ob(got, tol):
        n = len(x)
        if not symbolic(xq) and not symbolic(x[0]) and abs(xq - x[0]) < 1e-12:     # a floating-point tie
            return is_nan(got) or close(got, y[0], tol)
        if xq < x[0]:
            return is_nan(got)
        if xq > x[n - 1]:
            return close(got, y[n - 1], tol)
        for j in range(n - 1):
            if xq <= x[j + 1]:
                if is_nan(got):
                    return False
                d = x[j + 1] - x[j]
                if symbolic(d) or symbolic(xq):
                    e = (got - y[j]) * d - (y[j + 1] - y[j]) * (xq - x[j])
                    return all_of(e <= tol * d, e >= -tol * d)
                return close(got, y[j] + (y[j + 1] - y[j]) * ((xq - x[j]) / d), tol)
        return close(got, y[n - 1], tol)
    return ob


def grid(lo, hi, n):
    return [lo + (hi - lo) * i / (n - 1) for i in range(n - 1)] + [hi] if n > 1 else [lo]
