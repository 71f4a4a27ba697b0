"""Symbolic scalars over z3, path state and obligations.

Values of the analysed program that depend on inputs are SymReal / SymInt / SymBool proxies around z3
terms.  Python's own interpreter executes the analysed functions; every time a symbolic condition is
turned into a truth value the current path forks.
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3

INF = float("inf")


from . import ratfun


class EngineLimit(Exception):
    """Raised where the engine cannot encode an operation (never a property failure)."""


class PathEnd(BaseException):
    """Stop exploring this path (infeasible assumption or budget)."""


class State(object):
    """State of one path. A module-level singleton CUR points to the active one."""
    pass


CUR = None  # the active PathState (None outside symbolic execution)


def cur():
    if CUR is None:
        raise EngineLimit("symbolic value used outside a symbolic path")
    return CUR


# ---------------------------------------------------------------------------------------------------
# conversions
# ---------------------------------------------------------------------------------------------------

def is_sym(x):
    return type(x) in (SymReal, SymInt, SymBool)


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y) for y in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(is_sym(y) for y in x.flat)
    return False


def _num(x):
    """Concrete python/numpy number or None."""
    t = type(x)
    if t is float or t is int or t is bool:
        return x
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _num(x.item()) if not is_sym(x.item()) else None
    if isinstance(x, (float, int)) and not is_sym(x):
        return x
    return None


def rv(x):
    """Exact z3 real numeral of a finite concrete number."""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(x)
    return z3.RealVal(f)


def real_expr(x):
    """z3 Real term of x or None when x is not a finite number."""
    t = type(x)
    if t is SymReal:
        return x.e
    if t is SymInt:
        return z3.ToReal(x.e)
    if t is SymBool:
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    n = _num(x)
    if n is None:
        return None
    if isinstance(n, float) and (n != n or n in (INF, -INF)):
        return None
    return rv(n)


def _isnp(x):
    t = type(x)
    if t is SymReal or t is SymInt:
        return x.np
    return isinstance(x, np.generic)


def simp(e):
    return z3.simplify(e)


def numeral(e):
    """Fraction of a z3 numeral term, else None."""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def mk(e, isnp=False):
    """SymReal of a term; folded to float when it is a numeral that a float represents exactly."""
    if ratfun.has_div(e):
        e = ratfun.canon(e)
    f = numeral(e)
    if f is None and e.num_args() and e.decl().kind() in (z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_ADD,
                                                         z3.Z3_OP_SUB, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
        if all(numeral(c) is not None for c in e.children()):
            f = numeral(simp(e))
    if f is not None:
        try:
            v = float(f)
        except OverflowError:
            v = None
        if v is not None and Fraction(v) == f:
            return np.float64(v) if isnp else v
    return SymReal(e, isnp)


def mkb(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    s = simp(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(s)


def bool_expr(x):
    t = type(x)
    if t is SymBool:
        return x.e
    if t is SymReal or t is SymInt:
        return x.e != 0
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return bool_expr(x.item())
    return z3.BoolVal(bool(x))


# ---------------------------------------------------------------------------------------------------
# Booleans
# ---------------------------------------------------------------------------------------------------

class SymBool(object):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        return mkb(z3.And(self.e, bool_expr(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.e, bool_expr(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.e, bool_expr(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.Not(self.e))

    def logical_not(self):
        return mkb(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)) or type(o) is SymBool:
            return mkb(self.e == bool_expr(o))
        return _as_int(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkb(z3.Not(bool_expr(r)))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symbool>"
    __str__ = __repr__

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.handle_ufunc(ufunc, method, inputs, kw)


def _boolarith(name):
    def f(self, o):
        return getattr(_as_int(self), name)(o)
    return f


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__lt__", "__le__",
           "__gt__", "__ge__", "__truediv__", "__rtruediv__"):
    setattr(SymBool, _n, _boolarith(_n))


def _as_int(b):
    return SymInt(z3.If(b.e, z3.IntVal(1), z3.IntVal(0)))


# ---------------------------------------------------------------------------------------------------
# Reals
# ---------------------------------------------------------------------------------------------------

def _special(x):
    """x is a concrete inf or nan."""
    n = _num(x)
    return isinstance(n, float) and (n != n or n in (INF, -INF))


def sign_of(x):
    """-1, 0, 1 of a symbolic or concrete real (forks)."""
    if x > 0:
        return 1
    if x < 0:
        return -1
    return 0


def _spec_arith(op, a, b):
    """Arithmetic where one operand is inf/nan and the other symbolic."""
    if is_sym(a):
        s, o, left = a, _num(b), True
    else:
        s, o, left = b, _num(a), False
    if o != o:
        return np.float64(o)
    if op == "+":
        return np.float64(o)
    if op == "-":
        return np.float64(-o if left else o)
    if op == "*":
        sg = sign_of(s)
        return np.float64(o * sg) if sg else np.float64("nan")
    if op == "/":
        if left:
            return np.float64(0.0)
        sg = sign_of(s)
        if sg == 0:
            if _isnp(s):
                return np.float64(o)
            raise ZeroDivisionError("float division by zero")
        return np.float64(o * sg)
    raise EngineLimit("inf/nan arithmetic %s" % op)


def div(a, b, isnp):
    """a / b for numbers, at least one symbolic or numpy semantics requested."""
    if _special(a) or _special(b):
        if is_sym(a) or is_sym(b):
            return _spec_arith("/", a, b)
        with np.errstate(all="ignore"):
            return np.float64(a) / np.float64(b)
    nb = _num(b)
    if nb is not None and not is_sym(b):
        if nb == 0:
            if not isnp:
                raise ZeroDivisionError("division by zero")
            if not is_sym(a):
                with np.errstate(all="ignore"):
                    return np.float64(a) / np.float64(nb)
            sg = sign_of(a)
            return np.float64(sg * INF) if sg else np.float64("nan")
        if not is_sym(a):
            return (np.float64(a) if isnp else a) / nb
        return mk(real_expr(a) * rv(1 / Fraction(nb)), isnp)
    eb = real_expr(b)
    if cur().branch(eb == 0):
        if not isnp:
            raise ZeroDivisionError("float division by zero")
        sg = sign_of(a)
        return np.float64(sg * INF) if sg else np.float64("nan")
    na = _num(a) if not is_sym(a) else None
    if na is not None and na == 0:
        return np.float64(0.0) if isnp else 0.0
    ea = real_expr(a)
    if z3.eq(ea, eb):
        return np.float64(1.0) if isnp else 1.0
    return mk(ea / eb, isnp)


class SymReal(object):
    __slots__ = ("e", "np")

    def __init__(self, e, isnp=False):
        self.e = e
        self.np = isnp

    @property
    def __class__(self):
        return float

    # -- arithmetic --------------------------------------------------------------------------------
    def _bin(self, op, o, swap):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        if _special(o):
            return _spec_arith(op, a, b)
        eo = real_expr(o)
        if eo is None:
            return NotImplemented
        isnp = self.np or _isnp(o)
        n = None if is_sym(o) else _num(o)
        if op == "+":
            if n == 0 and n is not None:
                return self if self.np or not isnp else SymReal(self.e, True)
            return mk(self.e + eo, isnp)
        if op == "-":
            if swap:
                if n is not None and n == 0:
                    return mk(-self.e, isnp)
                return mk(eo - self.e, isnp)
            if n is not None and n == 0:
                return self
            if z3.eq(self.e, eo):
                return np.float64(0.0) if isnp else 0.0
            return mk(self.e - eo, isnp)
        if op == "*":
            if n is not None:
                if n == 0:
                    return np.float64(0.0) if isnp else 0.0
                if n == 1:
                    return self
            return mk(self.e * eo, isnp)
        if op == "/":
            return div(a, b, isnp)
        raise EngineLimit(op)

    def __add__(self, o):
        return self._bin("+", o, False)

    def __radd__(self, o):
        return self._bin("+", o, True)

    def __sub__(self, o):
        return self._bin("-", o, False)

    def __rsub__(self, o):
        return self._bin("-", o, True)

    def __mul__(self, o):
        return self._bin("*", o, False)

    def __rmul__(self, o):
        return self._bin("*", o, True)

    def __truediv__(self, o):
        return self._bin("/", o, False)

    def __rtruediv__(self, o):
        return self._bin("/", o, True)

    def __floordiv__(self, o):
        r = self / o
        return floor_(r) if r is not NotImplemented else r

    def __rfloordiv__(self, o):
        r = self.__rtruediv__(o)
        return floor_(r) if r is not NotImplemented else r

    def __mod__(self, o):
        if real_expr(o) is None:
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        if real_expr(o) is None:
            return NotImplemented
        return o - (o // self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return mk(-self.e, self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    # -- comparisons -------------------------------------------------------------------------------
    def _cmp(self, op, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if o is None or isinstance(o, (str, bytes)):
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        if _special(o):
            v = _num(o)
            if v != v:
                return op == "!="
            return {"<": v > 0, "<=": v > 0, ">": v < 0, ">=": v < 0, "==": False, "!=": True}[op]
        eo = real_expr(o)
        if eo is None:
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        a = self.e
        if ratfun.has_div(a) or ratfun.has_div(eo):
            r = ratfun.canon_nd(a - eo)
            if r is not None:
                a, eo = r[0], rv(0)
                if numeral(r[1]) is None and op not in ("==", "!="):
                    s = cur().known_sign(r[1])
                    a = a if s > 0 else -a if s < 0 else a * r[1]
        return mkb({"<": lambda: a < eo, "<=": lambda: a <= eo, ">": lambda: a > eo,
                    ">=": lambda: a >= eo, "==": lambda: a == eo, "!=": lambda: a != eo}[op]())

    def __lt__(self, o):
        return self._cmp("<", o)

    def __le__(self, o):
        return self._cmp("<=", o)

    def __gt__(self, o):
        return self._cmp(">", o)

    def __ge__(self, o):
        return self._cmp(">=", o)

    def __eq__(self, o):
        return self._cmp("==", o)

    def __ne__(self, o):
        return self._cmp("!=", o)

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __hash__(self):
        return hash(cur().concretise(self.e, "hash of a symbolic number"))

    # -- conversions -------------------------------------------------------------------------------
    def __float__(self):
        return float(cur().concretise(self.e, "float() of a symbolic number in C code"))

    def __int__(self):
        return int(trunc_(self))

    def __trunc__(self):
        return trunc_(self)

    def __floor__(self):
        return to_int(floor_(self))

    def __ceil__(self):
        return to_int(ceil_(self))

    def __round__(self, nd=None):
        if nd is None:
            return to_int(rint_(self))
        k = 10 ** nd
        return rint_(self * k) / k

    def is_integer(self):
        return mkb(z3.IsInt(self.e))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<sym>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    # -- methods numpy calls on object arrays --------------------------------------------------------
    def log(self):
        return log(self)

    def exp(self):
        return exp(self)

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __getattr__(self, name):
        # methods of numpy scalars
        if name in ("item", "copy", "sum", "tolist", "max", "min", "mean", "astype", "squeeze"):
            if self.np:
                return lambda *a, **k: self
        elif name in ("ravel", "flatten") and self.np:
            from . import npshim
            return lambda *a, **k: npshim.array([self])
        elif name == "ndim" and self.np:
            return 0
        elif name == "shape" and self.np:
            return ()
        elif name == "size" and self.np:
            return 1
        elif name == "dtype" and self.np:
            return np.dtype(float)
        raise AttributeError("'float' object has no attribute %r" % name)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.handle_ufunc(ufunc, method, inputs, kw)


# ---------------------------------------------------------------------------------------------------
# Integers
# ---------------------------------------------------------------------------------------------------

def int_expr(x):
    t = type(x)
    if t is SymInt:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    n = None if is_sym(x) else _num(x)
    if isinstance(n, bool):
        return z3.IntVal(int(n))
    if isinstance(n, int):
        return z3.IntVal(n)
    return None


def mki(e, isnp=False):
    if z3.is_int_value(e):
        return e.as_long()
    s = simp(e)
    if z3.is_int_value(s):
        return s.as_long()
    return SymInt(e, isnp)


class SymInt(object):
    __slots__ = ("e", "np")

    def __init__(self, e, isnp=False):
        self.e = e
        self.np = isnp

    @property
    def __class__(self):
        return int

    def _r(self):
        return SymReal(z3.ToReal(self.e), self.np)

    def _bin(self, name, o, f):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        eo = int_expr(o)
        if eo is None:
            if real_expr(o) is None and not _special(o):
                return NotImplemented
            return getattr(self._r(), name)(o)
        return mki(f(self.e, eo), self.np or _isnp(o))

    def __add__(self, o):
        return self._bin("__add__", o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin("__radd__", o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin("__sub__", o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin("__rsub__", o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin("__mul__", o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin("__rmul__", o, lambda a, b: b * a)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return self._r().__truediv__(o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return self._r().__rtruediv__(o)

    def __floordiv__(self, o):
        eo = int_expr(o)
        if eo is None:
            return self._r().__floordiv__(o)
        return _ifloordiv(self.e, eo, self.np or _isnp(o))

    def __rfloordiv__(self, o):
        eo = int_expr(o)
        if eo is None:
            return self._r().__rfloordiv__(o)
        return _ifloordiv(eo, self.e, self.np or _isnp(o))

    def __mod__(self, o):
        if int_expr(o) is None:
            return self._r().__mod__(o)
        return self - (self // o) * o

    def __rmod__(self, o):
        if int_expr(o) is None:
            return self._r().__rmod__(o)
        return o - (o // self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        n = None if is_sym(o) else _num(o)
        if isinstance(n, int) and 0 <= n <= 16:
            r = 1
            for _ in range(n):
                r = self * r
            return r
        return power(self._r(), o)

    def __rpow__(self, o):
        return power(o, int(self))

    def __neg__(self):
        return mki(-self.e, self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        return mki(z3.If(self.e >= 0, self.e, -self.e), self.np)

    def _cmp(self, op, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        eo = int_expr(o)
        if eo is None:
            return self._r()._cmp(op, o)
        a = self.e
        if ratfun.has_div(a) or ratfun.has_div(eo):
            r = ratfun.canon_nd(a - eo)
            if r is not None:
                a, eo = r[0], rv(0)
                if numeral(r[1]) is None and op not in ("==", "!="):
                    s = cur().known_sign(r[1])
                    a = a if s > 0 else -a if s < 0 else a * r[1]
        return mkb({"<": a < eo, "<=": a <= eo, ">": a > eo, ">=": a >= eo, "==": a == eo,
                    "!=": a != eo}[op])

    def __lt__(self, o):
        return self._cmp("<", o)

    def __le__(self, o):
        return self._cmp("<=", o)

    def __gt__(self, o):
        return self._cmp(">", o)

    def __ge__(self, o):
        return self._cmp(">=", o)

    def __eq__(self, o):
        return self._cmp("==", o)

    def __ne__(self, o):
        return self._cmp("!=", o)

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __index__(self):
        return cur().enumerate_int(self.e)
    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self
    __floor__ = __ceil__ = __trunc__

    def __round__(self, nd=None):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symint>"

    def __str__(self):
        # text the code may go on to evaluate: one path per value
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def log(self):
        return log(self._r())

    def exp(self):
        return exp(self._r())

    def sqrt(self):
        return sqrt(self._r())

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.handle_ufunc(ufunc, method, inputs, kw)


def _ifloordiv(a, b, isnp):
    nb = b.as_long() if z3.is_int_value(b) else None
    if nb is None:
        if cur().branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mki(z3.ToInt(z3.ToReal(a) / z3.ToReal(b)), isnp)
    if nb == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if nb > 0:
        return mki(a / b, isnp)
    return mki((-a) / (-b), isnp)


# ---------------------------------------------------------------------------------------------------
# functions
# ---------------------------------------------------------------------------------------------------

def as_real(x):
    """SymReal of a symbolic int/bool, anything else unchanged."""
    if type(x) in (SymInt, SymBool):
        return SymReal(real_expr(x), getattr(x, "np", False) if type(x) is SymInt else False)
    return x


def to_int(x):
    """An integral-valued number as an integer."""
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return _as_int(x)
    if type(x) is SymReal:
        e = x.e
        if z3.is_to_real(e):
            return mki(e.arg(0))
        return mki(z3.ToInt(e))
    return int(x)


def floor_(x):
    if type(x) is SymInt:
        return x
    if type(x) is SymReal:
        e = x.e
        if z3.is_to_real(e):
            return x
        return SymReal(z3.ToReal(z3.ToInt(e)), x.np)
    return np.floor(x)


def ceil_(x):
    if type(x) is SymInt:
        return x
    if type(x) is SymReal:
        if z3.is_to_real(x.e):
            return x
        return SymReal(-z3.ToReal(z3.ToInt(-x.e)), x.np)
    return np.ceil(x)


def rint_(x):
    """Round half to even."""
    if type(x) is SymInt:
        return x
    if type(x) is SymReal:
        f = z3.ToInt(x.e)
        d = x.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        up = z3.Or(d > half, z3.And(d == half, f % 2 == 1))
        return SymReal(z3.ToReal(z3.If(up, f + 1, f)), x.np)
    return np.rint(x)


def trunc_(x):
    if type(x) is SymInt:
        return x
    if type(x) is SymReal:
        e = x.e
        if z3.is_to_real(e):
            return mki(e.arg(0))
        return mki(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    return int(x)


def absolute(x):
    if type(x) is SymInt:
        return abs(x)
    if type(x) is SymReal:
        c = cur()
        k = c.known(x.e >= 0)
        if k is True:
            return x
        if k is False:
            return -x
        return SymReal(z3.If(x.e >= 0, x.e, -x.e), x.np)
    return abs(x)


def ite(c, a, b):
    """If-then-else on values."""
    if not is_sym(c):
        return a if c else b
    ce = bool_expr(c)
    if a is b:
        return a
    ia, ib = int_expr(a), int_expr(b)
    if ia is not None and ib is not None and not isinstance(a, bool) and not isinstance(b, bool):
        return mki(z3.If(ce, ia, ib))
    if (type(a) is SymBool or isinstance(a, (bool, np.bool_))) and \
            (type(b) is SymBool or isinstance(b, (bool, np.bool_))):
        return mkb(z3.If(ce, bool_expr(a), bool_expr(b)))
    ea, eb = real_expr(a), real_expr(b)
    if ea is None or eb is None:
        return a if bool(SymBool(ce)) else b
    if z3.eq(ea, eb):
        return a
    return SymReal(z3.If(ce, ea, eb), _isnp(a) or _isnp(b))


def _le(a, b):
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    return a <= b


def maximum(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.maximum(a, b)
    for x, y in ((a, b), (b, a)):
        if _special(x):
            return x if (_num(x) != _num(x) or _num(x) > 0) else y
    return ite(_le(b, a), a, b)


def minimum(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.minimum(a, b)
    for x, y in ((a, b), (b, a)):
        if _special(x):
            return x if (_num(x) != _num(x) or _num(x) < 0) else y
    return ite(_le(a, b), a, b)


def sqrt(x):
    x = as_real(x)
    if type(x) is not SymReal:
        if not is_sym(x):
            with np.errstate(all="ignore"):
                return np.sqrt(x)
    if cur().branch(x.e < 0):
        if x.np:
            return np.float64("nan")
        raise ValueError("math domain error")
    return SymReal(cur().atom("sqrt", x.e), x.np)


def power(a, b):
    nb = None if is_sym(b) else _num(b)
    isnp = _isnp(a) or _isnp(b)
    if type(a) is SymBool:
        a = _as_int(a)
    if nb is not None:
        fb = Fraction(nb) if not _special(b) else None
        if fb is None:
            raise EngineLimit("power with special exponent")
        if fb.denominator == 1 and abs(fb.numerator) <= 16:
            n = abs(fb.numerator)
            if n == 0:
                return np.float64(1.0) if isnp else 1.0
            r = a
            for _ in range(n - 1):
                r = r * a
            if fb < 0:
                return div(1.0, as_real(r), isnp)
            return r
        if fb.denominator == 2 and abs(fb.numerator) <= 15:
            s = sqrt(a)
            return power(s, int(fb * 2))
        if not is_sym(a):
            return np.float64(a) ** nb
    na = None if is_sym(a) else _num(a)
    if na is not None and na == 0:
        raise EngineLimit("0 ** symbolic")
    # a ** b = exp(b * log a), a > 0
    if na is not None:
        if na < 0:
            raise EngineLimit("negative base, symbolic exponent")
        if na == 1:
            return np.float64(1.0) if isnp else 1.0
        return exp(as_real(b) * SymReal(rv(math.log(na)), isnp))
    a = as_real(a)
    if cur().branch(a.e <= 0):
        raise EngineLimit("non-positive base with a non-integer exponent")
    return exp(log(a) * as_real(b))


def _decompose(e, sign, out):
    """Split a term into multiplicative factors [(factor, power)]."""
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_MUL:
        for c in e.children():
            _decompose(c, sign, out)
    elif k == z3.Z3_OP_DIV:
        _decompose(e.arg(0), sign, out)
        _decompose(e.arg(1), -sign, out)
    elif k == z3.Z3_OP_POWER and numeral(e.arg(1)) is not None and numeral(e.arg(1)).denominator == 1:
        _decompose(e.arg(0), sign * int(numeral(e.arg(1))), out)
    else:
        out.append((e, sign))


def log(x):
    x = as_real(x)
    if not is_sym(x):
        with np.errstate(all="ignore"):
            return np.log(x)
    c = cur()
    if not c.branch(x.e > 0):
        if c.branch(x.e == 0):
            if x.np:
                return np.float64(-INF)
            raise ValueError("math domain error")
        if x.np:
            return np.float64("nan")
        raise ValueError("math domain error")
    facs = []
    _decompose(x.e, 1, facs)
    if len(facs) == 1 and facs[0][1] == 1:
        return SymReal(c.log_atom(facs[0][0]), x.np)
    total = None
    for f, p in facs:
        n = numeral(f)
        if n is not None:
            if n <= 0:
                break
            t = rv(math.log(n))
        else:
            if c.known(f > 0) is not True:
                break
            t = c.log_atom(f)
        t = t * p if p != 1 else t
        total = t if total is None else total + t
    else:
        return mk(simp(total), x.np)
    return SymReal(c.log_atom(x.e), x.np)


def exp(x):
    x = as_real(x)
    if not is_sym(x):
        with np.errstate(all="ignore"):
            return np.exp(x)
    c = cur()
    e = z3.simplify(x.e, som=True)
    terms = list(e.children()) if (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD) else [e]
    rest, prod = [], None
    for t in terms:
        coef, atom = Fraction(1), t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and \
                numeral(t.arg(0)) is not None:
            coef, atom = numeral(t.arg(0)), t.arg(1)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            coef, atom = Fraction(-1), t.arg(0)
        arg = c.log_arg(atom)
        r = round(coef)
        if arg is not None and abs(coef - r) < Fraction(1, 10 ** 12) and r != 0 and abs(r) <= 8:
            f = arg
            for _ in range(abs(r) - 1):
                f = f * arg
            if r < 0:
                prod = (1 / f) if prod is None else prod / f
            else:
                prod = f if prod is None else prod * f
        else:
            rest.append(t)
    if rest:
        re_ = simp(z3.Sum(rest)) if len(rest) > 1 else rest[0]
        n = numeral(re_)
        if n is not None:
            ex = rv(math.exp(n))
        else:
            ex = c.atom("exp", re_)
        prod = ex if prod is None else prod * ex
    return mk(prod, x.np)


def sin(x):
    if not is_sym(x):
        return np.sin(x)
    raise EngineLimit("sin")


def zand(xs):
    xs = list(xs)
    if not any(is_sym(x) for x in xs):
        return all(bool(x) for x in xs)
    return mkb(z3.And(*[bool_expr(x) for x in xs]))


def zor(xs):
    xs = list(xs)
    if not any(is_sym(x) for x in xs):
        return any(bool(x) for x in xs)
    return mkb(z3.Or(*[bool_expr(x) for x in xs]))


def isnan(x):
    if is_sym(x):
        return False
    try:
        return bool(np.isnan(x))
    except TypeError:
        return False


def isinf(x):
    if is_sym(x):
        return False
    return bool(np.isinf(x))
