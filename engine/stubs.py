"""Stand-ins for modules that are absent here or have no symbolic meaning."""
import builtins
import os
import types

import numpy as np
import z3

from . import npshim, sym
from .sym import EngineLimit, SymReal, is_sym


def no_open(name, mode="r", *a, **k):
    if isinstance(name, str) and any(c in mode for c in "wax+") and not name.startswith("/dev/"):
        raise IOError("the checks do not let the code under test write files: %s" % name)
    return builtins.open(name, mode, *a, **k)


class Anything(types.ModuleType):
    """A module any attribute of which exists; using it is beyond the engine."""

    def __init__(self, name):
        super(Anything, self).__init__(name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        a = Anything(self.__name__ + "." + n)
        self.__dict__[n] = a
        return a

    def __call__(self, *a, **k):
        raise EngineLimit("call of %s" % self.__name__)


# -- h5py ------------------------------------------------------------------------------------------
class Attrs(dict):
    """HDF5 attributes: numbers, strings and arrays of them only."""

    def __setitem__(self, k, v):
        if v is None or isinstance(v, (dict, set)) or not (
                is_sym(v) or isinstance(v, (str, bytes, int, float, complex, np.generic, np.ndarray, list, tuple))):
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        if isinstance(v, (list, tuple)) and any(x is None or isinstance(x, (dict, list, tuple)) for x in v):
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        if not isinstance(k, (str, bytes)):
            raise TypeError("Attribute names must be strings")
        dict.__setitem__(self, k, v)

    def create(self, k, v, shape=None, dtype=None):
        t = npshim.narrowed(dtype)
        self[k] = v if t is None else npshim.narrow(t, v)


class Dataset(object):
    def __init__(self, data):
        self._d = data.copy() if isinstance(data, np.ndarray) else npshim_free_copy(data)
        self.attrs = Attrs()

    @property
    def value(self):
        return self[()]

    @property
    def shape(self):
        return self._d.shape

    def __getitem__(self, k):
        if isinstance(k, tuple) and k == ():
            return self._d.copy()
        r = self._d[k]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self._d)

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d)


def npshim_free_copy(d):
    if sym.has_sym(d):
        return npshim.array(d)
    return np.array(d)


class Group(object):
    def __init__(self):
        self.attrs = Attrs()
        self._items = {}

    def create_group(self, name):
        g = self
        for part in name.strip("/").split("/"):
            if part not in g._items:
                g._items[part] = Group()
                created = True
            else:
                created = False
            g = g._items[part]
        if not created:
            raise ValueError("Unable to create group (name already exists)")
        return g

    def require_group(self, name):
        try:
            return self[name]
        except KeyError:
            return self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if name in self._items:
            raise ValueError("Unable to create dataset (name already exists)")
        if data is None:
            data = np.zeros(shape)
        if kw.get("compression") and not np.shape(np.asarray(data, dtype=object)):
            raise TypeError("Scalar datasets don't support chunk/filter options")
        try:
            d = np.dtype(npshim.rdtype(dtype)) if dtype is not None else np.dtype(object)
        except TypeError:
            d = np.dtype(object)
        if d.kind in "iub" or npshim.narrowed(dtype) is not None:
            data = npshim.astype(npshim.array(data), dtype)
        if kw.get("scaleoffset") is not None and npshim.array(data).dtype == object:
            data = npshim.np_round(npshim.array(data), int(kw["scaleoffset"]))
        self._items[name] = Dataset(data)
        return self._items[name]

    def __getitem__(self, name):
        g = self
        for part in name.strip("/").split("/"):
            if not isinstance(g, Group) or part not in g._items:
                raise KeyError("Unable to open object (object %r doesn't exist)" % name)
            g = g._items[part]
        return g

    def __delitem__(self, name):
        if name not in self._items:
            raise KeyError("Couldn't delete link (name doesn't exist)")
        del self._items[name]

    def __contains__(self, name):
        try:
            self[name]
            return True
        except KeyError:
            return False

    def get(self, name, default=None):
        return self[name] if name in self else default

    def __iter__(self):
        return iter(sorted(self._items))

    def __len__(self):
        return len(self._items)

    def keys(self):
        return sorted(self._items)

    def values(self):
        return [self._items[k] for k in self.keys()]

    def items(self):
        return [(k, self._items[k]) for k in self.keys()]
    iteritems = items
    iterkeys = keys
    itervalues = values


class FileSystem(object):
    def __init__(self):
        self.files = {}

    def File(self, name, mode="r", **kw):
        name = os.path.normpath(name)
        if mode in ("r", "r+"):
            if name not in self.files:
                raise IOError("Unable to open file (unable to open file: name = %r)" % name)
        elif mode == "w":
            self.files[name] = FileObj()
        elif mode == "a":
            self.files.setdefault(name, FileObj())
        elif mode in ("w-", "x"):
            if name in self.files:
                raise IOError("Unable to create file (file exists)")
            self.files[name] = FileObj()
        else:
            raise ValueError("invalid mode")
        return self.files[name]


class FileObj(Group):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def flush(self):
        pass


# -- scipy -----------------------------------------------------------------------------------------
_weights = {}


class SplineStub(object):
    """Interpolating spline through (x_i, y_i): sum_i y_i * L_i(v) with L_i an arbitrary function of
    the knots and of v alone, and L_i(x_j) = delta_ij (an interpolating spline is linear in y)."""

    def __init__(self, x, y, w=None, bbox=None, k=3, ext=0, **kw):
        self.x = [npshim.npmark(v) for v in npshim.array(x).ravel()]
        self.y = [npshim.npmark(v) for v in npshim.array(y).ravel()]
        if len(self.x) != len(self.y):
            raise ValueError("x and y should have a same length")
        if len(self.x) <= k:
            raise ValueError("k should be smaller than the number of points")
        if not isinstance(ext, (int, str)):
            raise EngineLimit("spline ext")
        if ext not in (0, "extrapolate"):
            raise EngineLimit("spline ext")
        self.k = k
        for a, b in zip(self.x[:-1], self.x[1:]):
            if not bool(a < b):
                raise ValueError("x must be strictly increasing")

    def _at(self, v):
        # exact at a knot when the equality is decided by the path condition
        for i, xi in enumerate(self.x):
            if not is_sym(v) and not is_sym(xi):
                if abs(float(v) - float(xi)) <= 1e-12 * max(1.0, abs(float(xi))):
                    return self.y[i]
                continue
            d = v - xi
            if not is_sym(d):
                if d == 0:
                    return self.y[i]
                continue
            if sym.cur().known(d.e == 0) is True:
                return self.y[i]
        if self.k == 1:
            j = 0
            while j < len(self.x) - 2 and bool(v >= self.x[j + 1]):
                j += 1
            f = (v - self.x[j]) / (self.x[j + 1] - self.x[j])
            return npshim.npmark(self.y[j] + f * (self.y[j + 1] - self.y[j]))
        tot = 0.0
        weights = self.weights(v)
        t = self.position(v) if weights is None else None
        knots = self.knot_key() if weights is None else None
        for i, yi in enumerate(self.y):
            if weights is not None:
                tot = tot + yi * weights[i]
                continue
            L = sym.SymReal(sym.cur().fn_atom("spl%d_%s_%d_k%d" % (i, knots, len(self.x), self.k),
                                               sym.real_expr(t)), True)
            tot = tot + yi * L
        if getattr(sym.cur(), "spline_positive", False) and is_sym(tot):
            sym.cur().add(tot.e > 0)
        return npshim.npmark(tot)

    def weights(self, v):
        """Numeric weights of the ordinates when everything else is a number."""
        if is_sym(v) or any(is_sym(x) for x in self.x):
            return None
        key = (tuple(float(x) for x in self.x), float(v), self.k)
        if key not in _weights:
            from scipy.interpolate import InterpolatedUnivariateSpline as S
            n = len(key[0])
            _weights[key] = [float(S(key[0], np.eye(n)[i], k=self.k)(key[1])) for i in range(n)]
        return _weights[key]

    def position(self, v):
        """v in units of knots for equally spaced knots (splines are affinely equivariant)."""
        if self.uniform():
            return (v - self.x[0]) / (self.x[1] - self.x[0])
        return v

    def uniform(self):
        w = self.x[1] - self.x[0]
        for a, b in zip(self.x[:-1], self.x[1:]):
            d = (b - a) - w
            if is_sym(d):
                e = z3.simplify(d.e, som=True)
                if sym.numeral(e) != 0:
                    return False
            elif abs(d) > 1e-9 * abs(float(w)) if not is_sym(w) else d != 0:
                return False
        return True

    def knot_key(self):
        if self.uniform():
            return "u"
        return "x".join(z3.simplify(sym.real_expr(v), som=True).sexpr() for v in self.x)

    def __call__(self, v, nu=0, ext=None):
        if nu or ext not in (None, 0):
            raise EngineLimit("spline options")
        if isinstance(v, (np.ndarray, list, tuple)):
            a = npshim.plain(npshim.array(v))
            o = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                o[i] = self._at(npshim.npmark(a[i]))
            return npshim.wrap(o)
        return self._at(v)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise EngineLimit("spline." + n)


# -- json / yaml -----------------------------------------------------------------------------------
MARK = "__verif_sym__"


class SymJson(types.ModuleType):
    """json whose texts hold symbolic numbers by reference (their decimal form is outside the check)."""

    def __init__(self):
        import json
        super(SymJson, self).__init__("json")
        self._json = json
        self._held = []

    def __getattr__(self, n):
        return getattr(self.__dict__["_json"], n)

    def _enc(self, o):
        if is_sym(o):
            self._held.append(o)
            return {MARK: len(self._held) - 1}
        if isinstance(o, dict):
            return type(o)((k, self._enc(v)) for k, v in o.items())
        if isinstance(o, (list, tuple)):
            return [self._enc(v) for v in o]
        return o

    def _key(self, o):
        if isinstance(o, dict) and any(is_sym(k) for k in o):
            raise EngineLimit("symbolic key in json")

    def dumps(self, o, **kw):
        return self._json.dumps(self._enc(o), **kw)

    def loads(self, s, **kw):
        hook = kw.pop("object_pairs_hook", None)
        ohook = kw.pop("object_hook", None)

        def f(pairs):
            if len(pairs) == 1 and pairs[0][0] == MARK:
                return self._held[pairs[0][1]]
            if hook:
                return hook(pairs)
            d = dict(pairs)
            return ohook(d) if ohook else d
        return self._json.loads(s, object_pairs_hook=f, **kw)


class SymYaml(types.ModuleType):
    """yaml whose texts hold symbolic numbers as numbers that stand for them (their decimal form is outside the
    check); those numpy would hand out stand as numpy numbers, which yaml does not write."""

    def __init__(self):
        import yaml
        super(SymYaml, self).__init__("yaml")
        self.__dict__["_yaml"] = yaml
        self.__dict__["_held"] = []

    def __getattr__(self, n):
        return getattr(self.__dict__["_yaml"], n)

    def _enc(self, o):
        if is_sym(o):
            if type(o) is sym.SymBool:
                return bool(o)
            self._held.append(o)
            if type(o) is sym.SymInt:
                v = 6170000000000 + len(self._held)
                return np.int64(v) if o.np else v
            v = 6.17e+201 + 1e+195 * len(self._held)
            return np.float64(v) if getattr(o, "np", False) else v
        if isinstance(o, dict):
            return type(o)((self._enc(k), self._enc(v)) for k, v in o.items())
        if type(o) in (list, tuple):
            return type(o)(self._enc(v) for v in o)
        return o

    def _dec(self, o):
        if type(o) is int and o - 6170000000000 in range(1, len(self._held) + 1):
            return self._plain(self._held[o - 6170000000000 - 1])
        if type(o) is float and 6.17e+201 < o < 6.2e+201:
            for k, h in enumerate(self._held):
                if o == 6.17e+201 + 1e+195 * (k + 1):
                    return self._plain(h)
        if isinstance(o, dict):
            return type(o)((self._dec(k), self._dec(v)) for k, v in o.items())
        if type(o) in (list, tuple):
            return type(o)(self._dec(v) for v in o)
        return o

    def _plain(self, v):
        return type(v)(v.e, False)

    def dump(self, data, stream=None, *a, **kw):
        return self._yaml.dump(self._enc(data), stream, *a, **kw)

    def load(self, stream, *a, **kw):
        return self._dec(self._yaml.load(stream, *a, **kw))

    def safe_dump(self, data, stream=None, **kw):
        return self._yaml.safe_dump(self._enc(data), stream, **kw)

    def safe_load(self, stream):
        return self._dec(self._yaml.safe_load(stream))


def make(mode, ldr):
    fs = FileSystem()
    h5 = types.ModuleType("h5py")
    h5.File = fs.File
    h5.Group = Group
    h5.Dataset = Dataset
    rat = Anything("rat")
    d = {"h5py": h5, "ROOT": Anything("ROOT"), "rat": rat, "matplotlib": Anything("matplotlib"),
         "pylab": Anything("pylab"), "colorlog": Anything("colorlog"), "mpl_toolkits": Anything("mpl_toolkits")}
    if mode == "sym":
        d["numpy"] = npshim.FakeNumpy()
        d["math"] = npshim.FakeMath()
        d["json"] = SymJson()
        try:
            d["yaml"] = SymYaml()
        except ImportError:
            d["yaml"] = Anything("yaml")
        sp = Anything("scipy")
        it = Anything("scipy.interpolate")
        it.InterpolatedUnivariateSpline = SplineStub
        sp.__dict__["interpolate"] = it
        d["scipy"] = sp
    ldr.fs = fs
    return d
