"""A small symbolic-execution engine for the real beep code.

Inputs are z3 terms wrapped in proxies (SymNum, SymBool).  The *unmodified* functions of
/repo are executed on them by the ordinary interpreter (through pandas/numpy object columns);
every truth test on a proxy asks the solver which outcomes are feasible under the current
path condition, and the engine re-executes the function once per feasible path.  At the end of
a path the property is a z3 formula; the solver decides  path_condition and not property.

Real arithmetic stands for floating point (stated in every evidence file).
"""
import math
import os
import sys
import time
import traceback
from fractions import Fraction

if hasattr(__import__('sys'), 'set_int_max_str_digits'):
    __import__('sys').set_int_max_str_digits(0)


from . import z3path

z3 = z3path.load()

CTX = None          # the active context


class PathAbort(BaseException):
    """Steers the engine (infeasible assumption or budget)."""

    def __init__(self, *a):
        super().__init__(*a)
        if CTX is not None:
            CTX.aborted = True          # stands even if the code under test catches everything


class Unsupported(Exception):
    """The code under test did something with a proxy the engine has no meaning for."""


def active():
    return CTX


# ------------------------------------------------------------------ numerals

def to_fraction(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    return Fraction(repr(float(v))) if abs(float(v)) < 1e15 else Fraction(float(v))


def num(v):
    """z3 numeral for a python / numpy number."""
    f = to_fraction(v)
    if f.denominator == 1 and not isinstance(v, float):
        return z3.IntVal(f.numerator)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def is_num(v):
    if isinstance(v, (SymNum, SymBool)):
        return True
    if isinstance(v, (int, float, Fraction)):
        return True
    import numpy as np
    return isinstance(v, (np.integer, np.floating, np.bool_))


def pyval(v):
    """numpy scalar / 0-d array -> python scalar."""
    import numpy as np
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    if isinstance(v, np.generic):
        return v.item()
    return v


def term(v):
    if isinstance(v, SymNum):
        return v.t
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    v = pyval(v)
    if isinstance(v, (SymNum, SymBool)):
        return term(v)
    return num(v)


def real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def coerce(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return real(a), real(b)


def _special(o):
    """nan/inf constants have no z3 numeral."""
    return isinstance(o, float) and (math.isnan(o) or math.isinf(o))


def mk(t):
    return SymNum(z3.simplify(t))


# ------------------------------------------------------------------ booleans

class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self.t)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.t, o.t))
        if o is True or o is False or type(o).__name__ in ("bool_", "bool"):
            return self if bool(o) else False
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.t, o.t))
        if o is True or o is False or type(o).__name__ in ("bool_", "bool"):
            return True if bool(o) else self
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, btrue(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.t == o.t)
        if isinstance(o, bool) or type(o).__name__ == "bool_":
            return self if o else ~self
        if is_num(o):
            return SymNum(term(self)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 0

    def __add__(self, o):
        return SymNum(term(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return SymNum(term(self)) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return SymNum(term(self)) - o

    def __rsub__(self, o):
        return o - SymNum(term(self))

    def __repr__(self):
        return f"<SymBool {self.t}>"


def btrue(v):
    """z3 Bool of a (possibly symbolic) truth value, without forking."""
    if isinstance(v, SymBool):
        return v.t
    if z3.is_expr(v):
        return v
    if isinstance(v, SymNum):
        return v.t != 0
    return z3.BoolVal(bool(v))


# ------------------------------------------------------------------ numbers

def _cmp(op):
    def f(self, o):
        o = pyval(o)
        if isinstance(o, str) or o is None:
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        if not is_num(o):
            if op == "eq":
                return NotImplemented
            return NotImplemented
        if _special(o):
            if math.isnan(o):
                return op == "ne"
            return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0,
                    "eq": False, "ne": True}[op]
        a, b = coerce(self.t, term(o))
        t = {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b,
             "ge": lambda: a >= b, "eq": lambda: a == b, "ne": lambda: a != b}[op]()
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)
    return f


class SymNum:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    # --- comparisons
    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __eq__ = _cmp("eq")
    __ne__ = _cmp("ne")

    def __hash__(self):
        return 0

    @property
    def is_int(self):
        return z3.is_int(self.t)

    # --- arithmetic
    def _bin(self, o, f, special):
        o = pyval(o)
        if not is_num(o):
            return NotImplemented
        if _special(o):
            return special(o)
        a, b = coerce(self.t, term(o))
        return mk(f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda s: s)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda s: -s)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda s: s)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, self._mulspecial)
    __rmul__ = __mul__

    def _mulspecial(self, s):
        if math.isnan(s):
            return s
        if self > 0:
            return s
        if self < 0:
            return -s
        return math.nan

    def __truediv__(self, o):
        o = pyval(o)
        if not is_num(o):
            return NotImplemented
        if _special(o):
            return math.nan if math.isnan(o) else 0.0
        return div(self, o)

    def __rtruediv__(self, o):
        o = pyval(o)
        if not is_num(o):
            return NotImplemented
        if _special(o):
            return self._mulspecial(o)
        return div(o, self)

    def __floordiv__(self, o):
        return floor(div(self, o)) if not (self.is_int and isinstance(pyval(o), int)) \
            else mk(self.t / num(o))

    def __rfloordiv__(self, o):
        return floor(div(o, self))

    def __mod__(self, o):
        o = pyval(o)
        if isinstance(o, str) or not is_num(o):
            return NotImplemented
        if self.is_int and isinstance(o, int) and o > 0:
            return mk(self.t % num(o))
        return self - floor(div(self, o)) * o

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o - floor(div(o, self)) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return mk(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, o):
        o = pyval(o)
        if isinstance(o, int) and 0 <= o <= 8:
            r = SymNum(z3.RealVal(1)) if not self.is_int else SymNum(z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        if o == 0.5:
            return self.sqrt()
        if isinstance(o, float) and o.is_integer() and 0 <= o <= 8:
            return self ** int(o)
        return CTX.uf("pow", self, o)

    def __rpow__(self, o):
        return CTX.uf("pow", o, self)

    # --- conversions
    def __round__(self, nd=None):
        return sround(self, nd)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __int__(self):
        v = CTX.concretize(self, "int()")
        return int(v)

    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(CTX.concretize(self, "index"))

    def __float__(self):
        return float(CTX.concretize(self, "float()"))

    def __bool__(self):
        return CTX.branch(z3.simplify(self.t != 0))

    def __str__(self):
        return CTX.token(self, "")

    def __format__(self, spec):
        return CTX.token(self, spec)

    def __repr__(self):
        return CTX.token(self, "") if CTX is not None else f"<Sym {self.t}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # --- things numpy calls by name on object arrays
    def sqrt(self):
        return CTX.sqrt(self)

    def rint(self):
        return sround(self, None, keep_real=True)

    def log10(self):
        return CTX.uf("log10", self)

    def log(self):
        return CTX.uf("log", self)

    def exp(self):
        return CTX.uf("exp", self)

    def conjugate(self):
        return self

    def isnan(self):
        return False

    def item(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def is_integer(self):
        return SymBool(z3.IsInt(self.t)) if not self.is_int else True

    def mean(self):          # numpy scalars have one
        return self

    def round(self, decimals=0):
        return sround(self, decimals, keep_real=True)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def dtype(self):
        import numpy as np
        return np.dtype(object)

    @property
    def ndim(self):
        return 0

    def __reduce__(self):
        raise Unsupported("pickling a symbolic number")


def div(a, b):
    """numpy float semantics: x/0 is inf or nan."""
    b = pyval(b)
    a = pyval(a)
    if isinstance(b, (SymNum, SymBool)):
        bt = real(term(b))
        if CTX.branch(z3.simplify(bt == 0)):
            if _special(a):
                return a
            at = SymNum(real(term(a)))
            if at > 0:
                return math.inf
            if at < 0:
                return -math.inf
            return math.nan
    else:
        if b == 0:
            at = SymNum(real(term(a)))
            if at > 0:
                return math.inf
            if at < 0:
                return -math.inf
            return math.nan
        bt = real(term(b))
    return mk(real(term(a)) / bt)


def floor(a):
    if not isinstance(a, SymNum):
        return a if _special(pyval(a)) else math.floor(a)
    if a.is_int:
        return a
    return SymNum(z3.ToInt(a.t))


def trunc(a):
    if not isinstance(a, SymNum):
        return int(a)
    if a.is_int:
        return a
    return SymNum(z3.If(a.t >= 0, z3.ToInt(a.t), -z3.ToInt(-a.t)))


def sround(a, nd=None, keep_real=False):
    """round(): the nearest multiple, ties unspecified (either neighbour).

    Encoded as an integer k with |k - a*10^nd| <= 1/2, one k per argument term."""
    if not isinstance(a, SymNum):
        return round(a, nd)
    if a.is_int and (nd is None or nd >= 0):
        return a
    k = CTX.rounding(a.t, nd or 0)
    if nd is None:
        return SymNum(z3.ToReal(k)) if keep_real else SymNum(k)
    scale = Fraction(10) ** nd
    return mk(z3.ToReal(k) / z3.RealVal(f"{scale.numerator}/{scale.denominator}"))


def ite(c, a, b):
    if isinstance(c, SymBool):
        if z3.is_true(c.t):
            return a
        if z3.is_false(c.t):
            return b
        if _special(pyval(a)) or _special(pyval(b)):
            return a if c else b
        x, y = coerce(term(a), term(b))
        return SymNum(z3.If(c.t, x, y))
    return a if c else b


def symbolic(v):
    return isinstance(v, (SymNum, SymBool))


def smax(vals):
    vals = list(vals)
    if not any(symbolic(v) for v in vals):
        return max(vals)
    r = vals[0]
    for v in vals[1:]:
        r = ite(v > r, v, r)
    return r


def smin(vals):
    vals = list(vals)
    if not any(symbolic(v) for v in vals):
        return min(vals)
    r = vals[0]
    for v in vals[1:]:
        r = ite(v < r, v, r)
    return r


def all_of(*cs):
    cs = list(cs[0]) if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else list(cs)
    if any(isinstance(c, SymBool) for c in cs):
        return SymBool(z3.And([btrue(c) for c in cs]))
    return all(bool(c) for c in cs)


def any_of(*cs):
    cs = list(cs[0]) if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else list(cs)
    if any(isinstance(c, SymBool) for c in cs):
        return SymBool(z3.Or([btrue(c) for c in cs]))
    return any(bool(c) for c in cs)


def not_(c):
    return ~c if isinstance(c, SymBool) else not c


def implies(a, b):
    return any_of(not_(a), b)


def is_nan(v):
    v = pyval(v)
    if symbolic(v):
        return False
    try:
        return v is None or math.isnan(v)
    except TypeError:
        return True


def close(a, b, tol=1e-6):
    """|a-b| <= tol, nan equal to nan."""
    a, b = pyval(a), pyval(b)
    na, nb = is_nan(a), is_nan(b)
    if na or nb:
        return na and nb
    if _special(a) or _special(b):
        return (not symbolic(a)) and (not symbolic(b)) and a == b
    if symbolic(a) or symbolic(b):
        a_, b_ = coerce(term(a), term(b))
        if a_.eq(b_):
            return True
        d = real(z3.simplify(a_ - b_))
        tt = num(float(tol))
        return SymBool(z3.And(d <= tt, -d <= tt))
    return abs(a - b) <= tol


# ------------------------------------------------------------------ contexts

class Ctx:
    """One execution of a harness on one path (symbolic) or one assignment (concrete)."""

    def __init__(self, mode, params=None, tier="quick"):
        self.mode = mode
        self.params = params or {}
        self.tier = tier
        self.requirements = []
        self.covers = []

    # -- requirements: collected, decided at the end of the path
    def require(self, label, cond):
        self.requirements.append((label, cond))

    def cover(self, label, cond=True):
        self.covers.append((label, cond))

    def fail(self, label):
        self.requirements.append((label, False))


class ConcCtx(Ctx):
    """Replay: the same harness on ordinary python/numpy values and unpatched code."""

    def __init__(self, values, params=None, tier="quick"):
        super().__init__("conc", params, tier)
        self.values = values
        self.symbolic = False

    def real(self, name, lo=None, hi=None):
        if name not in self.values:
            self.values[name] = float(lo if lo is not None else (hi if hi is not None else 0.0))
        return float(self.values[name])

    def int(self, name, lo=None, hi=None):
        if name not in self.values:
            self.values[name] = int(lo or 0)
        return int(self.values[name])

    def bool(self, name):
        return bool(self.values.setdefault(name, False))

    def choice(self, name, options):
        i = int(self.values.setdefault(name, 0))
        return options[i if 0 <= i < len(options) else 0]

    def assume(self, cond):
        if not bool(cond):
            raise PathAbort("assumption fails on the concrete values")


class SymCtx(Ctx):
    def __init__(self, prefix, params=None, tier="quick", timeout_ms=20000):
        super().__init__("sym", params, tier)
        self.symbolic = True
        self.prefix = prefix
        self.trace = []          # decisions: (value, hash)
        self.pending = []        # alternative prefixes discovered on this path
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.inputs = {}
        self.uf_terms = {}
        self.round_terms = {}
        self.sqrt_terms = {}
        self.fresh = 0
        self.tokens = {}
        self.token_of = {}
        self.concretized = []
        self.model = None
        self.nchecks = 0
        self.solver_s = 0.0
        self.unknown_branches = 0
        self.diverged = False
        self.side = []           # side constraints (rounding, sqrt) for reporting

    # -- inputs
    def _declare(self, name, t):
        if name in self.inputs:
            return self.inputs[name]
        self.inputs[name] = t
        return t

    def real(self, name, lo=None, hi=None):
        new = name not in self.inputs
        t = self._declare(name, z3.Real(name))
        if new:
            if lo is not None:
                self.add(t >= num(float(lo)))
            if hi is not None:
                self.add(t <= num(float(hi)))
        return SymNum(t)

    def int(self, name, lo=None, hi=None):
        new = name not in self.inputs
        t = self._declare(name, z3.Int(name))
        if new:
            if lo is not None:
                self.add(t >= int(lo))
            if hi is not None:
                self.add(t <= int(hi))
        return SymNum(t)

    def bool(self, name):
        return SymBool(self._declare(name, z3.Bool(name)))

    def choice(self, name, options):
        """A symbolic index, resolved to one option per path."""
        new = name not in self.inputs
        t = self._declare(name, z3.Int(name))
        if new:
            self.add(z3.And(t >= 0, t < len(options)))
        for i in range(len(options) - 1):
            if self.branch(t == i):
                return options[i]
        self.add(t == len(options) - 1)
        return options[-1]

    def add(self, t):
        self.solver.add(t)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(t, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def assume(self, cond):
        t = z3.simplify(btrue(cond))
        if z3.is_true(t):
            return
        self.add(t)
        if len(self.trace) >= len(self.prefix) and self.model is None:
            if self.check() == z3.unsat:
                raise PathAbort("infeasible assumption")

    def check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t0
        self.nchecks += 1
        if r == z3.sat:
            self._last = self.solver.model()
        return r

    # -- branching
    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = len(self.trace)
        h = t.hash()
        if i < len(self.prefix):
            d, hh = self.prefix[i]
            if hh != h:
                self.diverged = True
            self.add(t if d else z3.Not(t))
            self.trace.append((d, h))
            return d
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathAbort("infeasible path")
            self.model = self._last if r == z3.sat else None
        guess = None
        if self.model is not None:
            v = self.model.eval(t, model_completion=True)
            if z3.is_true(v):
                guess = True
            elif z3.is_false(v):
                guess = False
        if guess is None:
            r = self.check(t)
            if r == z3.unsat:
                guess = False
            else:
                if r == z3.unknown:
                    self.unknown_branches += 1
                guess = True
                self.model = self._last if r == z3.sat else None
            other = self.check(z3.Not(t)) if guess else z3.unsat
        else:
            other = self.check(z3.Not(t) if guess else t)
        if other == z3.unknown:
            self.unknown_branches += 1
        d = guess
        if other != z3.unsat:
            self.pending.append(list(self.trace) + [(not d, h)])
        keep = self.model
        self.solver.add(t if d else z3.Not(t))
        self.model = keep
        self.trace.append((d, h))
        return d

    def concretize(self, s, why):
        """Last resort at a C boundary: pick one feasible value.  Recorded: the path is then
        only explored for that value (reported as incomplete)."""
        t = s.t
        ts = z3.simplify(t)
        if z3.is_int_value(ts) or z3.is_rational_value(ts):
            return value_of(ts)
        i = len(self.trace)
        if i < len(self.prefix) and isinstance(self.prefix[i][0], tuple):
            v = self.prefix[i][0][1]
        else:
            if self.model is None:
                r = self.check()
                if r != z3.sat:
                    raise PathAbort("no model to concretise with")
                self.model = self._last
            v = value_of(self.model.eval(t, model_completion=True))
        self.trace.append((("conc", v), 0))
        frame = sys._getframe(2)
        self.concretized.append(f"{why} at {os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}")
        self.solver.add(t == num(v) if not z3.is_int(t) else t == z3.IntVal(int(v)))
        return v

    # -- uninterpreted / axiomatised functions
    def _fresh(self, kind, sort):
        self.fresh += 1
        return z3.Const(f"!{kind}{self.fresh}", sort)

    def uf(self, name, *args):
        ts = [real(term(a)) for a in args]
        f = z3.Function(name, *([z3.RealSort()] * (len(ts) + 1)))
        return SymNum(f(*ts))

    def sqrt(self, s):
        if s < 0:
            return math.nan
        t = z3.simplify(real(s.t))
        key = t.get_id()
        if key not in self.sqrt_terms:
            r = self._fresh("sqrt", z3.RealSort())
            self.add(z3.And(r >= 0, r * r == t))
            self.sqrt_terms[key] = (r, t)
        return SymNum(self.sqrt_terms[key][0])

    def rounding(self, t, nd):
        t = z3.simplify(real(t))
        key = (t.get_id(), nd)
        if key not in self.round_terms:
            k = self._fresh("round", z3.IntSort())
            scale = Fraction(10) ** nd
            s = t * z3.RealVal(f"{scale.numerator}/{scale.denominator}")
            half = z3.RealVal("1/2")
            self.add(z3.And(z3.ToReal(k) - s <= half, s - z3.ToReal(k) <= half))
            self.round_terms[key] = (k, t)
        return self.round_terms[key][0]

    # -- numbers inside strings: one private-use character stands for the rendering
    TOKEN_BASE = 0xF0000
    # characters that survive ISO-8859-1 as well, for code that writes its files that way
    LATIN = [chr(i) for i in list(range(0x80, 0xc0)) + list(range(0xe0, 0x100))
             if i not in (0x85, 0xa0, 0xaa, 0xad, 0xb0, 0xb2, 0xb3, 0xb5, 0xb9, 0xba, 0xbc, 0xbd, 0xbe, 0xf7)]

    def token_char(self):
        n = len(self.tokens)
        if self.params.get("latin"):
            if n >= len(self.LATIN):
                raise Unsupported("too many numbers in latin-1 text")
            return self.LATIN[n]
        return chr(self.TOKEN_BASE + n)

    def digits(self, s, spec):
        """Digit-accurate rendering of '.Nf': the zeros at the end are real characters, and one token
        stands for the digits before them (forks on how many trailing zeros there are)."""
        n = int(spec[1:-1])
        k = real_int(self.rounding(s.t, n) if not s.is_int else s.t * 10 ** n)
        sign = ""
        if self.branch(k < 0):
            sign, k = "-", -k
        if self.branch(k == 0):
            return "0." + "0" * n
        z = 0
        while z < n + 4 and self.branch(k % (10 ** (z + 1)) == 0):
            z += 1
        head = z3.simplify(k / (10 ** z))
        key = (head.get_id(), "head", z, n)
        if key not in self.token_of:
            ch = self.token_char()
            v = SymNum(head) if z >= n else mk(z3.ToReal(head) / z3.RealVal(10 ** (n - z)))
            self.tokens[ch] = (v, "head-int" if z >= n else "head-dec", s.t)
            self.token_of[key] = ch
        ch = self.token_of[key]
        if z >= n:                                    # integer: head 00 . 000
            return sign + ch + "0" * (z - n) + "." + "0" * n
        return sign + ch + "0" * z                    # the point is inside the head

    def token(self, s, spec=""):
        if self.params.get("digits") and spec[:1] == "." and spec[-1:] == "f":
            return self.digits(s, spec)
        key = (s.t.get_id(), spec)
        if key not in self.token_of:
            ch = self.token_char()
            self.tokens[ch] = (rendered(s, spec), spec, s.t)
            self.token_of[key] = ch
        return self.token_of[key]

    def untoken(self, text):
        """The symbolic number a string renders, or None if the string has no token."""
        st = text.strip()
        if len(st) == 1 and st in self.tokens:
            return self.tokens[st][0]
        if len(st) == 2 and st[0] in "+-" and st[1] in self.tokens:
            v = self.tokens[st[1]][0]
            return v if st[0] == "+" else -v
        import re
        m = re.fullmatch(r"([+-]?)([\U000F0000-\U000FFFFF\x80-\xff])(0*)(\.0*)?", st)
        if m and m.group(2) in self.tokens:
            v, kind, _ = self.tokens[m.group(2)]
            if kind == "head-int":
                v = v * 10 ** len(m.group(3))
                return -v if m.group(1) == "-" else v
            if kind == "head-dec" and not m.group(4):
                return -v if m.group(1) == "-" else v
        m = re.fullmatch(r"([+-]?)([\U000F0000-\U000FFFFF\x80-\xff])?((?:\.\d*)?)(?:[eE]([-+]?\d+))?", st)
        if m and m.group(2) in self.tokens:           # whole part or mantissa symbolic, the rest literal
            v, kind, _ = self.tokens[m.group(2)]
            if kind != "head-dec" and (v.is_int or not m.group(3).strip(".")):
                if m.group(3).strip("."):
                    v = v + Fraction(int(m.group(3)[1:]), 10 ** (len(m.group(3)) - 1))
                if m.group(4):
                    v = v * (Fraction(10) ** int(m.group(4)))
                return -v if m.group(1) == "-" else v
        for ch in st:
            if ch in self.tokens:
                raise Unsupported(f"number parsed out of a composite string {text!r}")
        return None


def real_int(t):
    return t if z3.is_int(t) else z3.ToInt(t)


def rendered(s, spec):
    """The number a format spec prints (rounded to the digits it shows)."""
    import re
    m = re.search(r"\.(\d+)f$", spec)
    if m:
        return sround(s, int(m.group(1))) if not s.is_int else s
    if spec.endswith("d") or spec == "" or spec == "s":
        return s
    m = re.search(r"\.(\d+)[eEgG]$", spec)
    if m:
        return s
    return s


def value_of(v):
    """z3 value -> int / Fraction / bool."""
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f"no python value for {v}")


def fmt_exc():
    return "".join(traceback.format_exception(*sys.exc_info())[-4:])
