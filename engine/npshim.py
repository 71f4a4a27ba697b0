"""numpy facade: float arrays become object arrays of symbolic reals (class SArr)."""
import builtins
import functools
import math
import types
from fractions import Fraction

import numpy as np
import z3

from . import sym
from .sym import EngineLimit, SymBool, SymInt, SymReal, is_sym


# ---------------------------------------------------------------------------------------------------
# arrays
# ---------------------------------------------------------------------------------------------------

def npmark(v):
    """Element as numpy would hand it out."""
    t = type(v)
    if t is SymReal:
        return v if v.np else SymReal(v.e, True)
    if t is SymInt:
        return v if v.np else SymInt(v.e, True)
    if t is float:
        return np.float64(v)
    return v


def concrete_bools(a):
    for v in a.flat:
        if type(v) is SymBool:
            return False
    return True


# ---------------------------------------------------------------------------------------------------
# single and half precision
# ---------------------------------------------------------------------------------------------------
# Floats are reals here, so narrowing has to be modelled where it happens.  A symbolic value is rounded
# where it equals one of a few numbers that the narrow type cannot hold, and kept elsewhere: whatever the
# solver then finds uses one of those numbers, where the model is exact.

ROUNDED = [Fraction(1, 3), Fraction(-1, 3), Fraction(1000, 3)]


class _NarrowMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.real)

    def __call__(cls, x=0.0):
        return narrow(cls.real, x)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls.real)


NARROW = dict((n, _NarrowMeta(n, (), dict(real=t))) for n, t in
              (("float32", np.float32), ("single", np.float32), ("float16", np.float16), ("half", np.float16)))


def narrowed(dtype):
    """The narrow float type a dtype argument stands for, if any."""
    if dtype is None or dtype is SFloat or dtype is SInt:
        return None
    if type(dtype) is _NarrowMeta:
        return dtype.real
    try:
        d = np.dtype(dtype)
    except TypeError:
        return None
    return d.type if d.kind == "f" and d.itemsize < 8 else None


def narrow(t, v):
    if isinstance(v, np.ndarray):
        if v.dtype != object:
            r = v.astype(t)
            return r.astype(float).astype(object).view(SArr) if r.ndim else float(r)
        r = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            r[i] = narrow(t, plain(v)[i])
        return r.view(SArr) if r.ndim else npmark(r[()])
    if type(v) is SymInt or type(v) is SymBool:
        return sym.as_real(v)
    if is_sym(v):
        r = v.e
        for w in ROUNDED:
            r = z3.If(v.e == z3.RealVal(str(w)), z3.RealVal(str(Fraction(float(t(float(w)))))), r)
        return SymReal(r, True)
    if isinstance(v, (list, tuple)):
        return narrow(t, plain(array(v)))
    if v is None or isinstance(v, str):
        return np.float64(t(v))
    with np.errstate(all="ignore"):
        return np.float64(t(v))


def mark_narrow(a, dtype):
    """a, as an array of the narrow type a dtype argument stands for."""
    t = narrowed(dtype)
    if t is None or not isinstance(a, np.ndarray):
        return a
    if "__array_finalize__" not in SArr.__dict__:
        def finalize(self, obj):
            self._nar = getattr(obj, "_nar", None)
        SArr.__array_finalize__ = finalize
    r = narrow(t, a)
    r = plain(r).view(SArr) if isinstance(r, np.ndarray) else plain(np.asarray(r, dtype=object)).view(SArr)
    r._nar = t
    return r


class SArr(np.ndarray):
    """ndarray whose float contents are stored as objects."""

    _nar = None

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        if name in FUNCS:
            return FUNCS[name](*args, **kwargs)
        r = func._implementation(*args, **kwargs)
        return fix(r)

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, fix_index(idx))
        if isinstance(r, np.ndarray):
            return r
        return npmark(r)

    def __setitem__(self, idx, val):
        idx = fix_index(idx)
        if self.dtype == object:
            if self._nar is not None:
                val = narrow(self._nar, val)
            if isinstance(val, np.ndarray):
                val = np.asarray(val)
            elif isinstance(val, (list, tuple)):
                val = np.asarray(array(val))
            elif is_sym(val) or isinstance(val, (float, int, np.generic)):
                val = sym.as_real(val) if type(val) is SymBool else val
            np.ndarray.__setitem__(self, idx, val)
            return
        if self.dtype.kind in "iu" and is_sym(val):
            val = int(val)
        np.ndarray.__setitem__(self, idx, val)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def astype(self, dtype, *a, **k):
        return astype(self, dtype)

    def item(self, *args):
        return npmark(np.ndarray.item(self, *args))

    def __bool__(self):
        if self.size == 1:
            v = self.ravel()[0]
            return bool(v)
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __float__(self):
        if self.size == 1:
            return float(self.ravel()[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __deepcopy__(self, memo):
        return self.copy()

    # reductions whose object versions would fork or fail
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        r = red_sum(self, axis, keepdims, out)
        t = narrowed(dtype) or (self._nar if dtype is None else None)
        return r if t is None else mark_narrow(r, t) if isinstance(r, np.ndarray) else narrow(t, r)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return wrap(np.multiply.reduce(plain(self), axis=axis, keepdims=keepdims))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return mean(self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return red_fold(sym.maximum, self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return red_fold(sym.minimum, self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return red_bool(sym.zor, self, axis)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return red_bool(sym.zand, self, axis)

    def argmin(self, axis=None, out=None, **kw):
        return argbest(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, out=None, **kw):
        return argbest(self, axis, lambda a, b: a > b)

    def nonzero(self):
        return nonzero(self)

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    def clip(self, lo=None, hi=None, out=None, **kw):
        return clip(self, lo, hi, out)

    def std(self, *a, **k):
        raise EngineLimit("std")
    var = std

    def sort(self, axis=-1, **k):
        self[...] = np_sort(self, axis)

    def dot(self, o, out=None):
        return fix(np.dot(plain(self), plain(o)))

    def fill(self, v):
        self[...] = v

    def cumsum(self, axis=None, dtype=None, out=None):
        return wrap(np.add.accumulate(plain(self).ravel() if axis is None else plain(self),
                                      axis=0 if axis is None else axis))

    def argsort(self, axis=-1, **kw):
        raise EngineLimit("argsort")


def fix_index(idx):
    """Boolean masks and indices holding symbolic elements become concrete (by forking)."""
    if isinstance(idx, tuple):
        return tuple(_fix1(i) for i in idx)
    return _fix1(idx)


def _fix1(i):
    t = type(i)
    if t is SymInt or t is SymBool:
        return i.__index__()
    if t is SymReal:
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and "
                         "integer or boolean arrays are valid indices")
    if t is slice:
        def one(v):
            if v is None or isinstance(v, (int, np.integer)) and not is_sym(v):
                return v
            if type(v) is SymInt:
                return v.__index__()
            if type(v) is SymReal or isinstance(v, (float, np.floating)):
                raise TypeError("slice indices must be integers or None or have an __index__ method")
            return v
        return slice(one(i.start), one(i.stop), one(i.step))
    if isinstance(i, np.ndarray):
        if i.dtype == object:
            flat = list(i.flat)
            if all(type(v) is SymBool or isinstance(v, (bool, np.bool_)) for v in flat):
                return np.array([bool(v) for v in flat], dtype=bool).reshape(i.shape)
            if any(type(v) is SymReal or isinstance(v, float) for v in flat):
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            return np.array([int(v) for v in flat], dtype=int).reshape(i.shape)
        return np.asarray(i)
    if isinstance(i, list) and any(is_sym(v) for v in i):
        return _fix1(np.array(i, dtype=object))
    return i


def plain(x):
    """Base ndarray of anything (object dtype when it holds or should hold reals)."""
    if isinstance(x, np.ndarray):
        return np.asarray(x) if type(x) is np.ndarray else x.view(np.ndarray)
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return plain(array(x))
    return np.asarray(x)


def to_sarr(a):
    a = np.asarray(a)
    if a.dtype.kind == "f":
        a = a.astype(object)
    if a.dtype == object:
        flat = a.ravel()
        if flat is a or flat.base is not None:
            flat = a.flatten()
        for i in range(flat.size):
            flat[i] = npmark(flat[i]) if is_sym(flat[i]) else flat[i]
        a = flat.reshape(a.shape)
    return a.view(SArr)


def wrap(r):
    """Result of an operation on plain arrays, as numpy would return it."""
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return npmark(r.item())
        if r.dtype.kind == "f":
            r = r.astype(object)
        return r.view(SArr)
    return npmark(r)


def fix(r):
    if isinstance(r, np.ndarray):
        return wrap(r)
    if isinstance(r, tuple):
        return type(r)(*[fix(x) for x in r]) if hasattr(r, "_fields") else tuple(fix(x) for x in r)
    if isinstance(r, list):
        return [fix(x) for x in r]
    return npmark(r) if is_sym(r) else r


# ---------------------------------------------------------------------------------------------------
# ufuncs
# ---------------------------------------------------------------------------------------------------

def _pow(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return np.power(a, b)
    return sym.power(a, b)


def _div(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return np.true_divide(a, b)
    return sym.div(a, b, True)


def _cc(name):
    uf = getattr(np, name)

    def conc(*a):
        with np.errstate(all="ignore"):
            return uf(*a)
    return conc


def _f1(name, f):
    c = _cc(name)
    return lambda x: f(x) if is_sym(x) else c(x)


def py(x):
    """numpy scalar as a python number (so that the symbolic operand's method is used)."""
    return x.item() if isinstance(x, np.generic) else x


def _f2(name, f):
    c = _cc(name)
    return lambda x, y: f(py(x), py(y)) if (is_sym(x) or is_sym(y)) else c(x, y)


def _sign(x):
    return sym.ite(x > 0, 1.0, sym.ite(x < 0, -1.0, 0.0))


UF = {
    "add": _f2("add", lambda a, b: a + b), "subtract": _f2("subtract", lambda a, b: a - b),
    "multiply": _f2("multiply", lambda a, b: a * b), "true_divide": _div, "divide": _div,
    "floor_divide": _f2("floor_divide", lambda a, b: a // b),
    "remainder": _f2("remainder", lambda a, b: a % b), "mod": _f2("remainder", lambda a, b: a % b),
    "power": _pow, "float_power": _pow, "negative": _f1("negative", lambda a: -a),
    "positive": _f1("positive", lambda a: a),
    "absolute": _f1("absolute", sym.absolute), "fabs": _f1("fabs", lambda a: sym.as_real(sym.absolute(a))),
    "sqrt": _f1("sqrt", sym.sqrt), "square": _f1("square", lambda a: a * a),
    "log": _f1("log", sym.log), "exp": _f1("exp", sym.exp),
    "log10": _f1("log10", lambda a: sym.log(a) / math.log(10.)),
    "log2": _f1("log2", lambda a: sym.log(a) / math.log(2.)),
    "log1p": _f1("log1p", lambda a: sym.log(1. + a)),
    "exp2": _f1("exp2", lambda a: sym.power(2., a)),
    "floor": _f1("floor", lambda a: sym.as_real(sym.floor_(a))),
    "ceil": _f1("ceil", lambda a: sym.as_real(sym.ceil_(a))),
    "rint": _f1("rint", lambda a: sym.as_real(sym.rint_(a))),
    "trunc": _f1("trunc", lambda a: sym.as_real(sym.trunc_(a))),
    "sign": _f1("sign", _sign), "reciprocal": _f1("reciprocal", lambda a: _div(1.0, a)),
    "maximum": sym.maximum, "minimum": sym.minimum, "fmax": sym.maximum, "fmin": sym.minimum,
    "hypot": _f2("hypot", lambda a, b: sym.sqrt(a * a + b * b)),
    "conjugate": lambda a: a,
}
UFB = {  # boolean results
    "less": lambda a, b: py(a) < py(b), "less_equal": lambda a, b: py(a) <= py(b),
    "greater": lambda a, b: py(a) > py(b), "greater_equal": lambda a, b: py(a) >= py(b),
    "equal": lambda a, b: py(a) == py(b), "not_equal": lambda a, b: py(a) != py(b),
    "logical_and": lambda a, b: sym.zand((a, b)), "logical_or": lambda a, b: sym.zor((a, b)),
    "logical_not": lambda a: a.logical_not() if type(a) is SymBool else
        (sym.mkb(z3.Not(sym.bool_expr(a))) if is_sym(a) else not a),
    "logical_xor": lambda a, b: py(a) ^ py(b),
    "isnan": sym.isnan, "isinf": sym.isinf,
    "isfinite": lambda a: True if is_sym(a) else bool(np.isfinite(a)),
    "signbit": lambda a: a < 0,
}
UFBIT = {"bitwise_and": lambda a, b: py(a) & py(b), "bitwise_or": lambda a, b: py(a) | py(b),
         "invert": lambda a: a.logical_not() if type(a) is SymBool else
         ((not a) if isinstance(a, (bool, np.bool_)) else ~a),
         "bitwise_xor": lambda a, b: py(a) ^ py(b)}


def common_narrow(inputs):
    """The narrow type numpy would give the result of an operation on these operands, if any."""
    best = None
    for x in inputs:
        if isinstance(x, np.ndarray):
            t = getattr(x, "_nar", None)
            if t is None:
                if x.dtype.kind == "b" or (x.dtype.kind in "iu" and x.dtype.itemsize < 2):
                    continue
                return None
            best = t if best is None or np.dtype(t).itemsize > np.dtype(best).itemsize else best
        elif isinstance(x, np.generic) or getattr(x, "np", False):
            return None
    return best


def handle_ufunc(ufunc, method, inputs, kw):
    if method == "__call__" and kw.get("out") is None and kw.get("dtype") is None:
        t = common_narrow(inputs)
        if t is not None:
            r = _handle_ufunc(ufunc, method, inputs, kw)
            if isinstance(r, np.ndarray) and r.dtype == object and ufunc.__name__ not in UFB:
                return mark_narrow(r, t)
            return r
    return _handle_ufunc(ufunc, method, inputs, kw)


def _handle_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    where = kw.pop("where", True)
    if isinstance(where, np.ndarray) and where.dtype == object:
        where = np.array([bool(v) for v in where.flat]).reshape(where.shape)
    kw.pop("casting", None)
    dtype = kw.pop("dtype", None)
    kw.pop("subok", None)
    ins = [plain(i) for i in inputs]
    symbolic = any(i.dtype == object for i in ins)
    if not symbolic:
        if out is not None:
            o = plain(out)
            if o.dtype != object:
                getattr(ufunc, method)(*ins, out=o, where=where, **kw)
                return out
        with np.errstate(all="ignore"):
            r = getattr(ufunc, method)(*ins, **kw) if where is True else \
                getattr(ufunc, method)(*ins, where=where, **kw)
        if out is not None:
            out[...] = r
            return out
        return fix(r) if not isinstance(r, np.generic) else r
    if method == "__call__":
        if name in UF:
            f, isbool = UF[name], False
        elif name in UFB:
            f, isbool = UFB[name], True
        elif name in UFBIT:
            f, isbool = UFBIT[name], True
        elif name == "modf":
            raise EngineLimit("modf")
        elif name == "divmod":
            return (handle_ufunc(np.floor_divide, "__call__", inputs, {}),
                    handle_ufunc(np.remainder, "__call__", inputs, {}))
        else:
            if not any(sym.has_sym(i) for i in ins):
                with np.errstate(all="ignore"):
                    return fix(ufunc(*[i.astype(float) for i in ins]))
            raise EngineLimit("ufunc " + name)
        if where is not True:
            shape = np.broadcast_shapes(*[i.shape for i in ins], np.shape(where))
            r = np.empty(shape, dtype=object)
            bi = [np.broadcast_to(i, shape) for i in ins]
            bw = np.broadcast_to(where, shape)
            for idx in np.ndindex(*shape):
                if bw[idx]:
                    r[idx] = f(*[npmark(b[idx]) for b in bi])
                elif out is not None:
                    r[idx] = plain(out)[idx]
                else:
                    r[idx] = 0.0
        else:
            g = lambda *a: f(*[npmark(x) for x in a])
            r = np.frompyfunc(g, len(ins), 1)(*ins)
        if not isinstance(r, np.ndarray):
            r0 = np.empty((), dtype=object)
            r0[()] = r
            r = r0
        if isbool and concrete_bools(r):
            r = r.astype(bool)
        if isbool and dtype is not None and np.dtype(dtype if dtype in (bool,) else object) == bool:
            r = np.array([bool(v) for v in r.flat], dtype=bool).reshape(r.shape)
        if out is not None:
            if isinstance(out, np.ndarray):
                if out.dtype.kind in "iu" and not isbool and name in ("true_divide", "divide"):
                    raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('int64') "
                                    "with casting rule 'same_kind'" % name)
                if out.shape != r.shape:
                    if np.broadcast_shapes(out.shape, r.shape) != out.shape:
                        raise ValueError("non-broadcastable output operand with shape %s doesn't match the "
                                         "broadcast shape %s" % (out.shape, r.shape))
                if getattr(out, "_nar", None) is not None:
                    r = plain(narrow(out._nar, r))
                np.ndarray.__setitem__(out, Ellipsis, r)
                return out
        if r.ndim == 0:
            v = r.item() if r.dtype != object else r[()]
            return npmark(v) if not isinstance(v, bool) else np.bool_(v)
        return r.view(SArr)
    if method == "reduce":
        a = ins[0]
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        if name == "add":
            return red_sum(a, axis, keep, out)
        if name == "multiply":
            return wrap(np.multiply.reduce(a, axis=axis, keepdims=keep))
        if name in ("maximum", "fmax"):
            return red_fold(sym.maximum, a, axis, keep)
        if name in ("minimum", "fmin"):
            return red_fold(sym.minimum, a, axis, keep)
        if name == "logical_and":
            return red_bool(sym.zand, a, axis)
        if name == "logical_or":
            return red_bool(sym.zor, a, axis)
    if method == "accumulate" and name in ("add", "multiply"):
        return wrap(getattr(ufunc, method)(ins[0], **kw))
    if method == "outer":
        return handle_ufunc(ufunc, "__call__", (ins[0].reshape(ins[0].shape + (1,) * ins[1].ndim), ins[1]), kw)
    if method == "at":
        a = inputs[0]
        idx = fix_index(inputs[1])
        if name in UF:
            base = a.view(np.ndarray)
            flat_idx = np.arange(base.size).reshape(base.shape)[idx]
            vals = np.broadcast_to(plain(inputs[2]), np.shape(flat_idx)) if len(inputs) > 2 else None
            fl = np.ravel(flat_idx)
            for k in range(fl.size):
                pos = np.unravel_index(fl[k], base.shape)
                base[pos] = UF[name](base[pos], np.ravel(vals)[k]) if vals is not None else UF[name](base[pos])
            return None
    raise EngineLimit("ufunc %s.%s" % (name, method))


# ---------------------------------------------------------------------------------------------------
# reductions and other functions
# ---------------------------------------------------------------------------------------------------

def norm_axis(a, axis):
    if axis is None:
        return None
    if isinstance(axis, (tuple, list)):
        return tuple(np.lib.array_utils.normalize_axis_index(int(x), a.ndim) for x in axis)
    return (np.lib.array_utils.normalize_axis_index(int(axis), a.ndim),)


def red_generic(f, a, axis, keepdims=False):
    a = plain(a)
    ax = norm_axis(a, axis)
    if ax is None:
        r = f([npmark(v) for v in a.flat])
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return o.view(SArr)
        return r
    rest = [i for i in range(a.ndim) if i not in ax]
    shape = tuple(a.shape[i] for i in rest)
    t = a.transpose(rest + list(ax)).reshape(shape + (-1,))
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        out[idx] = f([npmark(v) for v in t[idx]])
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else a.shape[i] for i in range(a.ndim)))
    if out.ndim == 0:
        return out[()]
    return out


def red_sum(a, axis=None, keepdims=False, out=None):
    p = plain(a)
    if p.dtype != object:
        r = p.sum(axis=axis, keepdims=keepdims)
        return fix(r) if isinstance(r, np.ndarray) else r

    def s(vs):
        t = 0.0
        for v in vs:
            t = t + v if not (not is_sym(t) and t == 0) else (v + 0.0 if not is_sym(v) else v)
        return npmark(t)
    r = red_generic(s, p, axis, keepdims)
    if isinstance(r, np.ndarray):
        r = r.view(SArr)
        if out is not None:
            out[...] = r
            return out
    return r


def red_fold(f, a, axis=None, keepdims=False):
    p = plain(a)
    if p.size == 0:
        raise ValueError("zero-size array to reduction operation")

    def g(vs):
        t = vs[0]
        for v in vs[1:]:
            t = f(t, v)
        return npmark(t)
    r = red_generic(g, p, axis, keepdims)
    return wrap(r) if isinstance(r, np.ndarray) else r


def red_bool(f, a, axis=None):
    p = plain(a)
    if p.dtype == object and any(v is None or not (is_sym(v) or isinstance(v, (int, float, np.generic, str)))
                                 for v in p.ravel()):
        o = np.empty(p.shape, dtype=object)             # arbitrary objects: by their truth value
        for i in np.ndindex(*p.shape):
            o[i] = p[i] if is_sym(p[i]) else bool(p[i])
        a = o
    r = red_generic(f, a, axis)
    if isinstance(r, np.ndarray):
        if concrete_bools(r):
            return r.astype(bool)
        return r.view(SArr)
    return np.bool_(r) if isinstance(r, bool) else r


def mean(a, axis=None, keepdims=False):
    p = plain(a)
    ax = norm_axis(p, axis)
    n = p.size if ax is None else int(np.prod([p.shape[i] for i in ax]))
    return red_sum(a, axis, keepdims) / n


def argbest(a, axis, better):
    p = plain(a)
    if axis is not None:
        def f(vs):
            return _argbest(vs, better)
        r = red_generic(f, p, axis)
        return r.astype(int).view(SArr) if isinstance(r, np.ndarray) else np.int64(r)
    return np.int64(_argbest([npmark(v) for v in p.flat], better))


def _argbest(vs, better):
    if not vs:
        raise ValueError("attempt to get argmin of an empty sequence")
    for i, v in enumerate(vs):
        if not is_sym(v) and v != v:
            return i
    k = 0
    for i in range(1, len(vs)):
        if bool(better(vs[i], vs[k])):
            k = i
    return k


def nanargmin(a, axis=None, **kw):
    p = plain(a)
    vs = [npmark(v) for v in p.flat]
    if axis is not None:
        raise EngineLimit("nanargmin axis")
    k = None
    for i, v in enumerate(vs):
        if not is_sym(v) and v != v:
            continue
        if k is None or bool(v < vs[k]):
            k = i
    if k is None:
        raise ValueError("All-NaN slice encountered")
    return np.int64(k)


def nanfold(f):
    def g(a, axis=None, **kw):
        def h(vs):
            t = None
            for v in vs:
                if not is_sym(v) and v != v:
                    continue
                t = v if t is None else f(t, v)
            return np.float64("nan") if t is None else npmark(t)
        r = red_generic(h, plain(array(a)), axis, kw.get("keepdims", False))
        return wrap(r) if isinstance(r, np.ndarray) else r
    return g


def nansum(a, axis=None, keepdims=False, **kw):
    p = plain(array(a))
    q = np.empty(p.shape, dtype=object)
    for i in np.ndindex(*p.shape):
        v = p[i]
        q[i] = 0.0 if (not is_sym(v) and v != v) else v
    return red_sum(q, axis, keepdims)


def where(cond, *ab):
    if not ab:
        return nonzero(cond)
    a, b = ab
    c, a, b = plain(cond), plain(a), plain(b)
    if c.dtype != object and a.dtype != object and b.dtype != object:
        return fix(np.where(c, a, b))
    f = lambda c_, a_, b_: sym.ite(c_ if (type(c_) is SymBool or not is_sym(c_)) else c_ != 0, npmark(a_), npmark(b_))
    r = np.frompyfunc(f, 3, 1)(c, a, b)
    return wrap(r) if isinstance(r, np.ndarray) else npmark(r)


def nonzero(a):
    p = plain(a)
    if p.dtype == object:
        p = np.array([bool(v) for v in p.flat], dtype=bool).reshape(p.shape)
    return tuple(x.view(SArr) for x in np.nonzero(p))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    f = lambda x, y: (np.isclose(x, y, rtol, atol, equal_nan) if not is_sym(x) and not is_sym(y) else
                      (sym.absolute(x - y) <= atol + rtol * sym.absolute(y)
                       if not (sym._special(x) or sym._special(y)) else False))
    r = np.frompyfunc(f, 2, 1)(plain(a), plain(b))
    if isinstance(r, np.ndarray):
        return r.astype(bool).view(SArr) if concrete_bools(r) else r.view(SArr)
    return r


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return bool(sym.zand(list(plain(r).flat)))


def array_equal(a, b, equal_nan=False):
    a, b = plain(array(a)), plain(array(b))
    if a.shape != b.shape:
        return False
    return bool(sym.zand([x == y for x, y in zip(a.flat, b.flat)]))


def clip(a, lo=None, hi=None, out=None, **kw):
    lo = kw.get("a_min", kw.get("min", lo))
    hi = kw.get("a_max", kw.get("max", hi))
    r = a
    if lo is not None:
        r = handle_ufunc(np.maximum, "__call__", (r, lo), {})
    if hi is not None:
        r = handle_ufunc(np.minimum, "__call__", (r, hi), {})
    if out is not None:
        out[...] = r
        return out
    return r


def np_round(a, decimals=0, out=None):
    if not isinstance(a, np.ndarray) and not is_sym(a):
        return np.round(a, decimals)
    if isinstance(a, np.ndarray) and a.dtype != object:
        return fix(np.round(plain(a), decimals))
    k = 10.0 ** decimals
    if decimals == 0:
        return handle_ufunc(np.rint, "__call__", (a,), {})
    return handle_ufunc(np.rint, "__call__", (a * k,), {}) / k


def np_sort(a, axis=-1, **kw):
    p = plain(array(a))
    if p.ndim != 1:
        raise EngineLimit("sort of an n-d array")
    vs = [npmark(v) for v in p]
    # insertion network with min/max
    for i in range(len(vs)):
        for j in range(len(vs) - 1 - i):
            x, y = vs[j], vs[j + 1]
            vs[j], vs[j + 1] = sym.minimum(x, y), sym.maximum(x, y)
    o = np.empty(len(vs), dtype=object)
    for i, v in enumerate(vs):
        o[i] = v
    return o.view(SArr)


def einsum(spec, *ops, **kw):
    ops = [plain(array(o)) for o in ops]
    if not isinstance(spec, str):
        raise EngineLimit("einsum sublist form")
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise EngineLimit("einsum ellipsis")
    if "->" in spec:
        lhs, rhs = spec.split("->")
    else:
        lhs = spec
        letters = sorted(set(lhs.replace(",", "")))
        rhs = "".join(l for l in letters if lhs.count(l) == 1)
    terms = lhs.split(",")
    if len(terms) != len(ops):
        raise ValueError("einsum operand count")
    dim = {}
    for t, o in zip(terms, ops):
        if len(t) != o.ndim:
            raise ValueError("einsum: operand has wrong number of subscripts")
        for l, n in zip(t, o.shape):
            if l in dim and dim[l] != n:
                if dim[l] == 1 or n == 1:
                    dim[l] = max(dim[l], n)
                else:
                    raise ValueError("operands could not be broadcast together")
            dim[l] = n if l not in dim else dim[l]
    for l in rhs:
        if l not in dim:
            raise ValueError("einstein sum subscripts string included output subscript never in input")
    inner = [l for l in dim if l not in rhs]
    out = np.empty(tuple(dim[l] for l in rhs), dtype=object)
    for idx in np.ndindex(*out.shape):
        env = dict(zip(rhs, idx))
        tot = 0.0
        for j in np.ndindex(*[dim[l] for l in inner]):
            env.update(zip(inner, j))
            v = 1.0
            for t, o in zip(terms, ops):
                x = npmark(o[tuple(env[l] if o.shape[k] > 1 else 0 for k, l in enumerate(t))])
                v = x if (not is_sym(v) and v == 1.0) else v * x
            tot = v if (not is_sym(tot) and tot == 0.0) else tot + v
        out[idx] = tot
    return wrap(out)


def dot(a, b, out=None):
    a, b = plain(array(a)), plain(array(b))
    if a.dtype != object and b.dtype != object:
        return fix(np.dot(a, b))
    if a.ndim == 0 or b.ndim == 0:
        return wrap(a * b)
    if a.shape[-1] != b.shape[0 if b.ndim == 1 else -2]:
        raise ValueError("shapes not aligned")
    if a.ndim == 1 and b.ndim == 1:
        return red_sum(wrap(np.frompyfunc(UF["multiply"], 2, 1)(a, b)))
    return wrap(np.dot(a.astype(object), b.astype(object)))


def outer(a, b, out=None):
    a, b = plain(array(a)).ravel(), plain(array(b)).ravel()
    return handle_ufunc(np.multiply, "__call__", (a.reshape(-1, 1), b), {})


def average(a, axis=None, weights=None, **kw):
    if weights is None:
        return mean(array(a), axis)
    a, w = array(a), array(weights)
    return red_sum(a * w, axis) / red_sum(w, axis)


def digitize(x, bins, right=False):
    b = plain(array(bins))
    n = b.size
    inc = n < 2 or bool(b[0] <= b[-1])
    xs = plain(array(x)) if not is_sym(x) else plain(x)

    def f(v):
        t = 0
        for e in b:
            if inc:
                c = (v > e) if right else (v >= e)
            else:
                c = (v <= e) if right else (v < e)
            t = t + sym.ite(c, 1, 0)
        return t
    if xs.ndim == 0:
        return f(xs[()])
    r = np.empty(xs.shape, dtype=object)
    for i in np.ndindex(*xs.shape):
        r[i] = f(npmark(xs[i]))
    return r.view(SArr)


def searchsorted(a, v, side="left", sorter=None):
    return digitize(v, a, right=(side == "left"))


def interp(x, xp, fp, left=None, right=None, period=None):
    raise EngineLimit("interp")


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(operator_index(num))
    if num < 0:
        raise ValueError("Number of samples, %s, must be non-negative." % num)
    d = num - 1 if endpoint else num
    if not sym.has_sym(start) and not sym.has_sym(stop):
        r = np.linspace(float(start), float(stop), num, endpoint=endpoint)
        vals = list(r)
        step = (float(stop) - float(start)) / d if d > 0 else float("nan")
    else:
        delta = stop - start
        step = delta / d if d > 0 else np.float64("nan")
        vals = [start + i * step if i else start + 0.0 * delta for i in range(num)]
        if endpoint and num > 1:
            vals[-1] = stop
    o = np.empty(num, dtype=object)
    for i, v in enumerate(vals):
        o[i] = npmark(sym.as_real(v))
    o = astype(o.view(SArr), dtype) if dtype is not None else o.view(SArr)
    return (o, npmark(step)) if retstep else o


def operator_index(x):
    import operator
    return operator.index(x)


def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    e = linspace(start, stop, num, endpoint)
    return handle_ufunc(np.power, "__call__", (float(base), e), {})


def geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    l = math.log(10.)
    r = logspace(sym.log(start) / l, sym.log(stop) / l, num, endpoint)
    if num > 0:
        r[0] = start
        if endpoint and num > 1:
            r[-1] = stop
    return r


def arange(*args, **kw):
    if any(is_sym(a) for a in args):
        if all(type(a) in (SymInt, int) or isinstance(a, np.integer) for a in args):
            return fix(np.arange(*[int(a) for a in args]))
        lo, hi, st = (0, args[0], 1) if len(args) == 1 else (args + (1,))[:3]
        n = int(sym.to_int(sym.ceil_((hi - lo) / st)))
        o = np.empty(max(n, 0), dtype=object)
        for i in range(max(n, 0)):
            o[i] = npmark(lo + i * st)
        return o.view(SArr)
    kw = dict(kw)
    dt = kw.pop("dtype", None)
    if dt is not None:
        kw["dtype"] = rdtype(dt)
    return fix(np.arange(*args, **kw))


def bincount(x, weights=None, minlength=0):
    raise EngineLimit("bincount")


def histogram(*a, **k):
    raise EngineLimit("histogram")


def copyto(dst, src, where=True, **kw):
    if where is True:
        dst[...] = src
    else:
        dst[fix_index(where)] = src


def pad_like(name):
    f = getattr(np, name)

    def g(*a, **k):
        return fix(f(*[plain(x) if isinstance(x, np.ndarray) else x for x in a], **k))
    return g


FUNCS = dict(
    sum=lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: array(a).sum(axis, dtype, out, keepdims),
    nansum=nansum, mean=lambda a, axis=None, **k: mean(array(a), axis),
    amax=lambda a, axis=None, **k: red_fold(sym.maximum, array(a), axis),
    amin=lambda a, axis=None, **k: red_fold(sym.minimum, array(a), axis),
    max=lambda a, axis=None, **k: red_fold(sym.maximum, array(a), axis),
    min=lambda a, axis=None, **k: red_fold(sym.minimum, array(a), axis),
    nanmin=nanfold(sym.minimum), nanmax=nanfold(sym.maximum),
    any=lambda a, axis=None, **k: red_bool(sym.zor, array(a), axis),
    all=lambda a, axis=None, **k: red_bool(sym.zand, array(a), axis),
    argmin=lambda a, axis=None, **k: argbest(array(a), axis, lambda x, y: x < y),
    argmax=lambda a, axis=None, **k: argbest(array(a), axis, lambda x, y: x > y),
    nanargmin=nanargmin, where=where, nonzero=nonzero,
    flatnonzero=lambda a: nonzero(array(a).ravel())[0],
    argwhere=lambda a: fix(np.transpose(nonzero(a))),
    isclose=isclose, allclose=allclose, array_equal=array_equal, clip=clip, round=np_round,
    around=np_round, round_=np_round, sort=np_sort, einsum=einsum, dot=dot, outer=outer,
    average=average, digitize=digitize, searchsorted=searchsorted, interp=interp, linspace=linspace,
    logspace=logspace, geomspace=geomspace, bincount=bincount, histogram=histogram, copyto=copyto,
    count_nonzero=lambda a, axis=None: red_sum(where(array(a) != 0, 1, 0), axis),
    prod=lambda a, axis=None, **k: wrap(np.multiply.reduce(plain(array(a)), axis=axis)),
    cumsum=lambda a, axis=None, **k: array(a).cumsum(axis),
)


# ---------------------------------------------------------------------------------------------------
# creation
# ---------------------------------------------------------------------------------------------------

def rdtype(dt):
    """Real numpy dtype for a dtype argument of the analysed code; object for floats."""
    if dt is None:
        return object
    if dt is SFloat or dt is float:
        return object
    if dt is SInt or dt is int:
        return np.dtype(int)
    if dt is bool:
        return np.dtype(bool)
    if type(dt) is _NarrowMeta:
        return object
    d = np.dtype(dt)
    if d.kind == "f":
        return object
    return d


def astype(a, dtype):
    if narrowed(dtype) is not None:
        return mark_narrow(_astype(a, float), dtype)
    return _astype(a, dtype)


def _astype(a, dtype):
    d = np.dtype(rdtype(dtype))
    p = plain(a)
    if d == object:
        if p.dtype == object:
            r = np.empty(p.shape, dtype=object)
            for i in np.ndindex(*p.shape):
                v = p[i]
                r[i] = sym.as_real(v) if is_sym(v) else (float(v) if isinstance(v, (int, np.integer, np.bool_)) else v)
            return r.view(SArr)
        return p.astype(float).astype(object).view(SArr)
    if p.dtype == object:
        if d.kind in "iu":
            r = np.empty(p.shape, dtype=object)
            for i in np.ndindex(*p.shape):
                r[i] = sym.trunc_(p[i]) if is_sym(p[i]) else int(p[i])
            if not any(is_sym(v) for v in r.flat):
                return r.astype(d).view(SArr)
            return r.view(SArr)
        if d.kind == "b":
            r = np.array([bool(v) for v in p.flat], dtype=bool).reshape(p.shape)
            return r.view(SArr)
    return p.astype(d).view(SArr)


def array(x, dtype=None, copy=True, **kw):
    kw.pop("order", None)
    kw.pop("subok", None)
    ndmin = kw.pop("ndmin", 0)
    if type(x) is SArr and dtype is None:
        return x.copy() if copy else x
    if isinstance(x, np.ndarray):
        a = x
    elif is_sym(x):
        a = plain(x)
    else:
        if isinstance(x, types.GeneratorType):
            raise EngineLimit("array(generator)")
        x = unwrap_list(x)
        if sym.has_sym(x) or _has_sarr(x):
            a = np.array(x, dtype=object)
        else:
            a = np.array(x)
    if dtype is not None:
        a = astype(a, dtype)
    r = to_sarr(a) if not isinstance(a, SArr) else (a.copy() if copy and a is x else a)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def unwrap_list(x):
    if isinstance(x, (range, type({}.keys()), type({}.values()))):
        return list(x)
    return x


def _has_sarr(x):
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sarr(v) for v in x)
    return False


def asarray(x, dtype=None, **kw):
    if isinstance(x, np.ndarray) and type(x) is SArr and (dtype is None or rdtype(dtype) == x.dtype):
        return x
    return array(x, dtype, copy=False)


def _shape(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(int(operator_index(s)) for s in shape)
    if isinstance(shape, np.ndarray):
        return tuple(int(operator_index(s)) for s in plain(shape).ravel())
    return (int(operator_index(shape)),)


def full(shape, v, dtype=None, **kw):
    d = rdtype(dtype) if dtype is not None else (object if is_sym(v) or isinstance(v, float) else np.asarray(v).dtype)
    a = np.empty(_shape(shape), dtype=d)
    a[...] = v
    return mark_narrow(a.view(SArr), dtype)


def zeros(shape, dtype=None, **kw):
    return full(shape, 0.0 if np.dtype(rdtype(dtype)) == object else 0, dtype if dtype is not None else float)


def ones(shape, dtype=None, **kw):
    return full(shape, 1.0 if np.dtype(rdtype(dtype)) == object else 1, dtype if dtype is not None else float)


def empty(shape, dtype=None, **kw):
    if dtype in (object, "object", "O"):
        a = np.empty(_shape(shape), dtype=object)      # numpy fills these with None
        return a.view(SArr)
    # uninitialised memory: arbitrary, modelled by a recognisable value
    return full(shape, 12345.678 if np.dtype(rdtype(dtype)) == object else 0, dtype if dtype is not None else float)


def zeros_like(a, dtype=None, **kw):
    a = array(a)
    return zeros(a.shape, dtype if dtype is not None else (a.dtype if a.dtype != object else None))


def ones_like(a, dtype=None, **kw):
    a = array(a)
    return ones(a.shape, dtype if dtype is not None else (a.dtype if a.dtype != object else None))


def full_like(a, v, dtype=None, **kw):
    return full(array(a).shape, v, dtype if dtype is not None else float)


def fromiter(it, dtype, count=-1, **kw):
    return array(list(it), dtype)


def vectorize(f, *a, **k):
    def g(*args):
        arrs = np.broadcast_arrays(*[plain(array(x) if not np.isscalar(x) and not is_sym(x) else x) for x in args])
        out = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f(*[npmark(x[i]) for x in arrs])
        return wrap(out)
    return g


def asscalar(a):
    return array(a).item()


def isscalar(x):
    return is_sym(x) or np.isscalar(x)


def ndim(x):
    return 0 if is_sym(x) else array(x).ndim


def shape(x):
    return () if is_sym(x) else array(x).shape


def size(x):
    return 1 if is_sym(x) else array(x).size


def std(*a, **k):
    if any(sym.has_sym(x) for x in a):
        raise EngineLimit("std")
    return np.std(*a, **k)


CREATE = dict(array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, zeros=zeros,
              ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like,
              empty_like=zeros_like, full_like=full_like, arange=arange, fromiter=fromiter,
              vectorize=vectorize, asscalar=asscalar, isscalar=isscalar, ndim=ndim, shape=shape,
              size=size, std=std, var=std, copy=lambda a: array(a), linspace=linspace)


class _Random(object):
    @staticmethod
    def seed(*a):
        pass

    def __getattr__(self, n):
        raise EngineLimit("numpy.random." + n)


class FakeNumpy(types.ModuleType):
    def __init__(self):
        super(FakeNumpy, self).__init__("numpy")
        self.random = _Random()
        self.float = None

    def __getattr__(self, name):
        if name in NARROW:
            f = NARROW[name]
        elif name in CREATE:
            f = CREATE[name]
        elif name in FUNCS:
            f = FUNCS[name]
        else:
            v = getattr(np, name)
            if isinstance(v, np.ufunc):
                f = functools.partial(_ufcall, v)
                f = UfuncProxy(v)
            elif callable(v) and not isinstance(v, type):
                def f(*a, **k):
                    a = [plain(x) if isinstance(x, np.ndarray) else x for x in a]
                    a = [x.real if type(x) is _NarrowMeta else x for x in a]
                    k = dict((n, x.real if type(x) is _NarrowMeta else x) for n, x in k.items())
                    return fix(v(*a, **k))
            else:
                return v
        self.__dict__[name] = f
        return f


class UfuncProxy(object):
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        return _ufcall(self.uf, *a, **k)

    def reduce(self, a, axis=0, **k):
        return handle_ufunc(self.uf, "reduce", (array(a),), dict(k, axis=axis))

    def accumulate(self, a, axis=0, **k):
        return handle_ufunc(self.uf, "accumulate", (array(a),), dict(k, axis=axis))

    def outer(self, a, b, **k):
        return handle_ufunc(self.uf, "outer", (array(a), array(b)), k)

    def at(self, *a):
        return handle_ufunc(self.uf, "at", a, {})


def _ufcall(uf, *a, **k):
    scal = all(not isinstance(x, (np.ndarray, list, tuple)) for x in a)
    if scal and not any(is_sym(x) for x in a):
        with np.errstate(all="ignore"):
            return uf(*a, **k)
    if scal and not k and uf.__name__ in UF:
        return npmark(UF[uf.__name__](*[npmark(x) for x in a]))
    if len(a) > uf.nin:
        k["out"] = a[uf.nin]
        a = a[:uf.nin]
    return handle_ufunc(uf, "__call__", tuple(array(x) if isinstance(x, (list, tuple)) else x for x in a), k)


# ---------------------------------------------------------------------------------------------------
# math, builtins, formatting
# ---------------------------------------------------------------------------------------------------

class FakeMath(types.ModuleType):
    def __init__(self):
        super(FakeMath, self).__init__("math")

    def __getattr__(self, name):
        v = getattr(math, name)
        if not callable(v):
            return v
        table = dict(sqrt=sym.sqrt, log=_mlog, exp=sym.exp, fabs=sym.absolute, pow=sym.power,
                     floor=lambda x: sym.to_int(sym.floor_(x)), ceil=lambda x: sym.to_int(sym.ceil_(x)),
                     trunc=sym.trunc_, log10=lambda x: sym.log(x) / math.log(10.), isnan=lambda x: False,
                     isinf=lambda x: False, isfinite=lambda x: True,
                     hypot=lambda a, b: sym.sqrt(a * a + b * b), fsum=None)

        def f(*a):
            if name == "fsum":
                return functools.reduce(lambda x, y: x + y, a[0], 0.0)
            if any(is_sym(x) for x in a):
                if name not in table:
                    raise EngineLimit("math." + name)
                return table[name](*a)
            return v(*[x.item() if isinstance(x, np.ndarray) and x.size == 1 else x for x in a])
        return f


def _mlog(x, base=None):
    r = sym.log(x)
    return r if base is None else r / (sym.log(base) if is_sym(base) else math.log(base))


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float)

    def __subclasscheck__(cls, o):
        return issubclass(o, float)

    def __call__(cls, x=0.0):
        if is_sym(x):
            r = sym.as_real(x)
            return SymReal(r.e, False) if type(r) is SymReal else r
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.ravel()[0])
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(float)


class SFloat(float, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __subclasscheck__(cls, o):
        return issubclass(o, int)

    def __call__(cls, x=0, *a):
        if is_sym(x):
            r = sym.trunc_(sym.to_int(x)) if type(x) is SymBool else sym.trunc_(x)
            return r
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.ravel()[0])
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(int)


class SInt(int, metaclass=_IntMeta):
    pass


def sround(x, nd=None):
    if is_sym(x):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def ssum(it, start=0):
    t = start
    for v in it:
        t = t + v
    return t


def _pick(better):
    def f(*args, **kw):
        key = kw.get("key")
        if len(args) == 1:
            xs = list(args[0])
        else:
            xs = list(args)
        if not xs:
            if "default" in kw:
                return kw["default"]
            raise ValueError("arg is an empty sequence")
        if key is None and any(is_sym(x) for x in xs) and \
                all(is_sym(x) or isinstance(x, (int, float, np.number)) for x in xs):
            t = xs[0]
            for x in xs[1:]:
                t = better(t, x)
            return t
        return (builtins.max if better is sym.maximum else builtins.min)(xs, **({"key": key} if key else {}))
    return f


def stype(*a):
    if len(a) == 1:
        if type(a[0]) is SymReal:
            return SFloat
        if type(a[0]) is SymInt:
            return SInt
        if type(a[0]) is SymBool:
            return bool
        if type(a[0]) is SArr:
            return np.ndarray
    return type(*a)


def same(a, b):
    real = {SFloat: float, SInt: int}
    return (real.get(a, a) if isinstance(a, type) else a) is (real.get(b, b) if isinstance(b, type) else b)


def sym_builtins():
    return {"float": SFloat, "int": SInt, "round": sround, "sum": ssum, "max": _pick(sym.maximum),
            "min": _pick(sym.minimum), "type": stype}


def _scrub(v, spec=None):
    if is_sym(v):
        if type(v) is sym.SymInt:
            return v.__index__()
        return 0.5 if type(v) is SymReal else 1
    return v


def str_mod(a, b):
    """a % b of the analysed code; symbolic operands of string formatting become placeholders."""
    if isinstance(a, str) and not is_sym(a):
        if sym.has_sym(b) or (isinstance(b, np.ndarray) and b.dtype == object):
            if sym.CUR is not None:
                sym.CUR.formatted = True
            if isinstance(b, tuple):
                b = tuple(_scrub(x) if not isinstance(x, np.ndarray) else "<array>" for x in b)
            elif isinstance(b, dict):
                b = dict((k, _scrub(v)) for k, v in b.items())
            else:
                b = _scrub(b) if not isinstance(b, np.ndarray) else "<array>"
        return a % b
    return a % b
