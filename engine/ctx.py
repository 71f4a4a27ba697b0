"""The two faces of a harness: symbolic exploration and concrete replay."""
import json
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import loader, npshim, path as P, ratfun, sym as smod
from .path import Budget, PathState, Stats, frac_of, ratnf, solve, count_nodes
from .sym import EngineLimit, PathEnd, SymBool, SymInt, SymReal, bool_expr, is_sym, real_expr

RTOL = 1e-8
ATOL = 1e-8


class AssumeFailed(BaseException):
    """Concrete replay left the assumptions."""


class Violation(object):
    def __init__(self, label, kind, detail, inputs, choices):
        self.label, self.kind, self.detail = label, kind, detail
        self.inputs, self.choices = inputs, choices

    def as_dict(self):
        return dict(label=self.label, kind=self.kind, detail=self.detail,
                    inputs={k: repr(v) for k, v in self.inputs.items()}, choices=self.choices)


def leaves(x, prefix=""):
    """Flatten nested containers to [(path, scalar)]."""
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return [(prefix, x.item())]
        out = [(prefix + ".shape", tuple(x.shape))]
        for i, v in enumerate(np.asarray(x).ravel()):
            out.append(("%s[%d]" % (prefix, i), v))
        return out
    if isinstance(x, dict):
        out = [(prefix + ".keys", tuple(sorted(map(str, x))))]
        for k in sorted(x, key=str):
            out += leaves(x[k], "%s[%s]" % (prefix, k))
        return out
    if isinstance(x, (list, tuple)):
        out = [(prefix + ".len", len(x))]
        for i, v in enumerate(x):
            out += leaves(v, "%s[%d]" % (prefix, i))
        return out
    return [(prefix, x)]


def is_number(x):
    return is_sym(x) or (isinstance(x, (int, float, np.number, np.bool_, Fraction)))


class BaseCtx(object):
    sym = False

    def load(self, name):
        return self.loader.load(name)

    # every harness-side use of an array of inputs
    def reals(self, name, shape, lo=None, hi=None, **kw):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            a[idx] = self.real("%s_%s" % (name, "_".join(map(str, idx))), lo, hi, **kw)
        return self.arr(a)

    def raises(self, exc, f, *args, **kw):
        """f(*args) must raise one of exc; returns True iff it did. label= for the obligation."""
        label = kw.pop("label")
        try:
            f(*args, **kw)
        except EngineLimit:
            raise
        except exc:
            self.check(True, label)
            return True
        except Exception as e:
            if from_harness(e):
                raise
            self.fail(label, "raised %s instead: %s" % (type(e).__name__, e))
            return False
        self.fail(label, "no error raised")
        return False

    def refuses(self, f, *args, **kw):
        """f(*args) must raise some Exception."""
        return self.raises(Exception, f, *args, **kw)

    def fail(self, label, detail=""):
        self.detail = detail
        self.check(False, label)
        self.detail = ""

    def snapshot(self, x):
        """A copy of plain data (arrays, dicts, lists of scalars) for later comparison."""
        if isinstance(x, np.ndarray):
            a = np.array(np.asarray(x), copy=True)
            return a.astype(float) if a.dtype.kind == "f" else a
        if isinstance(x, dict):
            return dict((k, self.snapshot(v)) for k, v in x.items())
        if isinstance(x, (list, tuple)):
            return type(x)([self.snapshot(v) for v in x])
        return x


def from_harness(e):
    """The exception was raised by harness/engine code rather than the code under test."""
    tb = e.__traceback__
    last_repo = False
    fname = ""
    while tb is not None:
        fname = tb.tb_frame.f_code.co_filename
        if fname.startswith(loader.REPO_TAG):
            last_repo = True
        tb = tb.tb_next
    return not last_repo


# ---------------------------------------------------------------------------------------------------
# symbolic
# ---------------------------------------------------------------------------------------------------

class SymCtx(BaseCtx):
    sym = True

    def __init__(self, case, state, prefix):
        self.case = case
        self.state = state
        self.loader = loader.Loader("sym")
        self.inputs = []          # (name, z3 const)
        self.choices = {}
        self.candidates = case.candidates
        self.detail = ""
        self.checked_labels = set()

    # inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, isnp=False):
        c = z3.Real(name)
        self.inputs.append((name, c))
        if lo is not None:
            self.state.add(c > smod.rv(lo) if lo_open else c >= smod.rv(lo))
        if hi is not None:
            self.state.add(c < smod.rv(hi) if hi_open else c <= smod.rv(hi))
        return SymReal(c, isnp)

    def int(self, name, lo, hi):
        c = z3.Int(name)
        self.inputs.append((name, c))
        self.state.add(c >= lo)
        self.state.add(c <= hi)
        return SymInt(c)

    def choice(self, name, options):
        options = list(options)
        if name in self.choices:
            raise RuntimeError("two choices named %s" % name)
        k = self.state.choose(len(options))
        self.choices[name] = k
        return options[k]

    def arr(self, x):
        return npshim.to_sarr(np.asarray(x, dtype=object))

    def assume(self, cond):
        if isinstance(cond, (list, tuple)):
            for c in cond:
                self.assume(c)
            return
        e = bool_expr(cond)
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd("assumption false")
        self.state.add(e)
        if self.state._check() == z3.unsat:
            raise PathEnd("assumption infeasible")

    # math helpers usable in both modes
    log = staticmethod(smod.log)
    exp = staticmethod(smod.exp)
    sqrt = staticmethod(smod.sqrt)
    ite = staticmethod(smod.ite)
    abs = staticmethod(smod.absolute)
    floor = staticmethod(smod.floor_)
    And = staticmethod(lambda *a: smod.zand(a))
    Or = staticmethod(lambda *a: smod.zor(a))

    @staticmethod
    def Not(a):
        return smod.mkb(z3.Not(bool_expr(a)))

    def max(self, xs):
        xs = list(xs)
        r = xs[0]
        for x in xs[1:]:
            r = smod.maximum(r, x)
        return r

    def min(self, xs):
        xs = list(xs)
        r = xs[0]
        for x in xs[1:]:
            r = smod.minimum(r, x)
        return r

    def near(self, a, b):
        """Equality as a condition (exact over the reals)."""
        return a == b

    # obligations
    def check(self, cond, label, margin=None):
        """cond must hold for every value of the inputs on this path."""
        st = self.state
        st.stats.obligations += 1
        self.case.labels[label] = self.case.labels.get(label, 0) + 1
        if not is_sym(cond):
            if isinstance(cond, np.ndarray) and cond.ndim == 0:
                cond = cond.item()
            if bool(cond):
                st.stats.discharged += 1
                st.stats.trivial += 1
                return
            e = z3.BoolVal(False)
        else:
            e = z3.simplify(bool_expr(cond))
            if z3.is_true(e):
                st.stats.discharged += 1
                st.stats.trivial += 1
                return
        self._decide(e, label, margin)

    def _decide(self, e, label, margin=None):
        st = self.state
        if time.time() > st.deadline:
            raise Budget()
        neg = z3.Not(e)
        r, m = solve(st.cons + [neg], st.stats)
        if r == z3.sat and st.lazy:
            r, m = solve(st.cons + st.lazy_instances() + [neg], st.stats)
        lem = []
        if r == z3.unsat:
            st.stats.discharged += 1
            st.add(e)
            return
        if r == z3.unknown:
            st.stats.unknown += 1
            self.case.inconclusive.append((label, "solver unknown"))
            return
        # candidate counterexample
        key = label
        if key in self.case.settled:
            self._continue_with(e)
            return
        tries = 0
        while True:
            v = self._report(neg, margin, lem, label, m)
            if v is not None:
                self.case.settled.add(key)
                self.case.settled.add(v.label)
                self.case.confirmed.setdefault(v.label, v)
                break
            tries += 1
            if not (st.log_list or st.exp_list) or tries > 6:
                # exact disagreement that floats cannot exhibit
                self.case.inconclusive.append((label, "counterexample does not reproduce on the real code"
                                               + (" (%s)" % self.detail if self.detail else "")))
                break
            lem += st.refine_from(m)
            st.stats.refinements += 1
            r, m = solve(st.cons + st.lazy_instances() + lem + [neg], st.stats)
            if r == z3.unsat:
                st.stats.discharged += 1
                st.add(e)
                return
            if r == z3.unknown:
                st.stats.unknown += 1
                self.case.inconclusive.append((label, "solver unknown after refinement"))
                break
        self._continue_with(e)

    def _continue_with(self, e):
        if z3.is_false(e):
            raise PathEnd("after violation")
        self.state.add(e)
        if self.state._check() == z3.unsat:
            raise PathEnd("after violation")

    def _models(self, cons, m):
        """Float-friendly models of cons, the plain one last."""
        pol = self.polish(cons)
        if pol is not None:
            yield pol
        if m is not None:
            yield self.values(m)

    def _report(self, neg, margin, lem, label, m):
        st = self.state
        base = st.cons + st.lazy_instances() + lem
        tried = 0
        margins = list(margin) if isinstance(margin, (list, tuple)) else [margin] if margin is not None else []
        for extra in margins + [None]:
            cons = base + ([extra] if extra is not None else [neg])
            if extra is not None:
                r, mm = solve(cons, st.stats, 5000)
                if r != z3.sat:
                    continue
            else:
                mm = m
            for vals in self._models(cons, mm):
                tried += 1
                v = self.case.replay(vals, self.choices, st.stats, want=label)
                if v is not None:
                    return v
        return None

    def values(self, m):
        out = {}
        for name, c in self.inputs:
            v = frac_of(m.eval(c, model_completion=True))
            if v is None:
                v = Fraction(0)
            out[name] = int(v) if c.sort() == z3.IntSort() else float(v)
        return out

    def polish(self, cons, budget=6.0):
        """A model of cons whose inputs are multiples of 1/64 where possible."""
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*cons)
        self.state.stats.queries += 1
        if s.check() != z3.sat:
            return None
        m = s.model()
        for name, c in self.inputs:
            if c.sort() == z3.IntSort():
                v = m.eval(c, model_completion=True)
                s.add(c == v)
                continue
            v = frac_of(m.eval(c, model_completion=True))
            if v is None:
                v = Fraction(0)
            done = False
            for k in (1, 8, 64, 4096):
                if time.time() - t0 > budget:
                    break
                w = Fraction(round(v * k), k)
                if abs(w) > 10 ** 6:
                    w = Fraction(10 ** 3 if w > 0 else -10 ** 3)
                s.push()
                s.add(c == z3.RealVal(w))
                self.state.stats.queries += 1
                if s.check() == z3.sat:
                    m = s.model()
                    done = True
                    break
                s.pop()
            if not done:
                s.push()
                s.add(c == m.eval(c, model_completion=True))
                if s.check() != z3.sat:
                    return self.values(m)
                m = s.model()
        self.state.stats.solver_time += time.time() - t0
        return self.values(m)

    def eq(self, a, b, label):
        """a and b (scalars, arrays, nested containers) are equal."""
        if is_number(a) and is_number(b):
            return self._eq1(a, b, label)
        la, lb = leaves(a), leaves(b)
        if [p for p, _ in la] != [p for p, _ in lb]:
            self.fail(label, "structure differs")
            return
        conj = []
        for (p_, x), (_, y) in zip(la, lb):
            if is_sym(x) or is_sym(y):
                if is_number(x) and is_number(y):
                    conj.append((x, y))
                else:
                    self.fail(label, "%s: %r != %r" % (p_, x, y))
                    return
            elif is_number(x) and is_number(y):
                if not close(x, y):
                    self.fail(label, "%s: %r != %r" % (p_, x, y))
                    return
            elif not (x is y or x == y):
                self.fail(label, "%s: %r != %r" % (p_, x, y))
                return
        if not conj:
            self.check(True, label)
            return
        for x, y in conj:
            self._eq1(x, y, label)

    def _eq1(self, x, y, label):
        if not is_sym(x) and not is_sym(y):
            return self.check(close(x, y), label)
        ex, ey = real_expr(x), real_expr(y)
        if ex is None or ey is None:
            return self.fail(label, "one side is inf/nan")
        st = self.state
        self.case.labels[label] = self.case.labels.get(label, 0) + 1
        st.stats.obligations += 1
        if z3.eq(ex, ey):
            st.stats.discharged += 1
            st.stats.trivial += 1
            return
        if ratfun.has_div(ex) or ratfun.has_div(ey):
            r = ratfun.canon_nd(ex - ey)
            if r is not None and smod.numeral(r[0]) is None:
                nz = z3.simplify(r[0], som=True)
                if tiny_poly(nz):
                    r = (z3.RealVal(0), r[1])
                    self.case.notes["float constants: equality up to relative 1e-9"] = 1
            if r is not None and smod.numeral(r[0]) == 0:
                st.stats.discharged += 1
                st.stats.queries += 1
                return
        d = z3.simplify(ex - ey, som=True) if count_nodes(ex, 400) + count_nodes(ey, 400) < 800 else ex - ey
        n = smod.numeral(d)
        if n is not None:
            if n == 0:
                st.stats.discharged += 1
                st.stats.queries += 1
                return
            if abs(n) < Fraction(1, 10 ** 9):
                st.stats.discharged += 1
                self.case.notes["float constants: equality up to 1e-9"] = 1
                return
        else:
            try:
                if count_nodes(d, 300) <= 300:
                    t = time.time()
                    num, den = ratnf(d, {})
                    num = z3.simplify(num, som=True)
                    st.stats.solver_time += time.time() - t
                    if smod.numeral(num) == 0:
                        st.stats.discharged += 1
                        st.stats.queries += 1
                        return
                    if tiny_poly(num):
                        st.stats.discharged += 1
                        st.stats.queries += 1
                        self.case.notes["float constants: equality up to relative 1e-9"] = 1
                        return
            except z3.Z3Exception:
                pass
        ab = lambda t: z3.If(t >= 0, t, -t)
        tol = z3.RealVal("1/1000") * (ab(ex) + ab(ey)) + z3.RealVal("1/1000")
        fine = z3.RealVal("1/1000000") * (ab(ex) + ab(ey)) + z3.RealVal("1/10000000")
        margin = [z3.Or(ex - ey > t, ey - ex > t) for t in (tol, fine)]
        # concrete float constants inside the code make exact equality too strong: fall back to a margin
        e = z3.simplify(ex == ey)
        if z3.is_true(e):
            st.stats.discharged += 1
            return
        self._decide_eq(e, ex, ey, margin, label)

    def _decide_eq(self, e, ex, ey, margin, label):
        st = self.state
        neg = z3.Not(e)
        r, m = solve(st.cons + [neg], st.stats)
        if r == z3.unsat:
            st.stats.discharged += 1
            return
        ab = lambda t: z3.If(t >= 0, t, -t)
        tol = z3.RealVal("1/1000000000") * (ab(ex) + ab(ey) + 1)
        cons = st.cons + st.lazy_instances() + [z3.Or(ex - ey > tol, ey - ex > tol)]
        r, m = solve(cons, st.stats)
        if r == z3.unsat:
            st.stats.discharged += 1
            self.case.notes["equality up to relative 1e-9 (rounding of float constants)"] = 1
            return
        if r == z3.unknown:
            st.stats.unknown += 1
            self.case.inconclusive.append((label, "solver unknown"))
            return
        self._decide(e, label, margin)


def tiny_poly(e):
    """All monomial coefficients are negligible (left over from rounding of float constants)."""
    terms = e.children() if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD else [e]
    for t in terms:
        n = smod.numeral(t)
        if n is None and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            n = smod.numeral(t.arg(0))
        if n is None or abs(n) > Fraction(1, 10 ** 12):
            return False
    return True


def close(x, y):
    try:
        x, y = float(x), float(y)
    except OverflowError:
        return x == y
    if x != x or y != y:
        return x != x and y != y
    if x in (float("inf"), -float("inf")) or y in (float("inf"), -float("inf")):
        return x == y
    return abs(x - y) <= ATOL + RTOL * max(abs(x), abs(y))


# ---------------------------------------------------------------------------------------------------
# concrete
# ---------------------------------------------------------------------------------------------------

class CheckFailed(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class ConcCtx(BaseCtx):
    sym = False

    def __init__(self, values, choices, want=None):
        self.v = values
        self.ch = choices
        self.loader = loader.Loader("conc")
        self.want = want
        self.failures = []
        self.detail = ""
        self.used = {}

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, isnp=False):
        if name not in self.v:
            raise AssumeFailed("input %s has no value" % name)
        x = float(self.v[name])
        if lo is not None and (x < lo or (lo_open and x == lo)):
            raise AssumeFailed(name)
        if hi is not None and (x > hi or (hi_open and x == hi)):
            raise AssumeFailed(name)
        self.used[name] = x
        return np.float64(x) if isnp else x

    def int(self, name, lo, hi):
        if name not in self.v:
            raise AssumeFailed("input %s has no value" % name)
        x = int(self.v[name])
        if not lo <= x <= hi:
            raise AssumeFailed(name)
        self.used[name] = x
        return x

    def choice(self, name, options):
        options = list(options)
        k = self.ch[name]
        return options[k]

    def arr(self, x):
        return np.array(x, dtype=float)

    def assume(self, cond):
        if isinstance(cond, (list, tuple)):
            for c in cond:
                self.assume(c)
            return
        if not cond:
            raise AssumeFailed("assumption")

    log = staticmethod(np.log)
    exp = staticmethod(np.exp)
    sqrt = staticmethod(np.sqrt)
    abs = staticmethod(abs)
    floor = staticmethod(np.floor)

    @staticmethod
    def ite(c, a, b):
        return a if c else b
    And = staticmethod(lambda *a: all(bool(x) for x in a))
    Or = staticmethod(lambda *a: any(bool(x) for x in a))
    Not = staticmethod(lambda a: not a)

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def near(self, a, b):
        return close(a, b)

    def check(self, cond, label, margin=None):
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        if not bool(cond):
            self.failures.append((label, self.detail))

    def eq(self, a, b, label):
        la, lb = leaves(a), leaves(b)
        if [p for p, _ in la] != [p for p, _ in lb]:
            self.failures.append((label, "structure differs: %r / %r" % (a, b)))
            return
        for (p_, x), (_, y) in zip(la, lb):
            if is_number(x) and is_number(y):
                if not close(x, y):
                    self.failures.append((label, "%s: %r != %r" % (p_, x, y)))
                    return
            elif not (x is y or x == y):
                self.failures.append((label, "%s: %r != %r" % (p_, x, y)))
                return


# ---------------------------------------------------------------------------------------------------
# what was done before
# ---------------------------------------------------------------------------------------------------

class PreludeEnd(BaseException):
    """The earlier use cannot go on (an assumption does not hold for its values)."""


class Prelude(object):
    """An earlier use of the same loaded modules: concrete values, obligations not looked at."""

    def _start(self, loader_, variant):
        self.loader, self.variant = loader_, variant
        self.picked = set()
        self.detail = ""
        self.choices = self.ch = {}

    def _frac(self, name):
        h = 0
        for ch in "%s/%d" % (name, self.variant):
            h = (h * 31 + ord(ch)) % 9973
        return Fraction(8 + h % 49, 64)             # 1/8 to 7/8

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, isnp=False):
        f = self._frac(name)
        if lo is None and hi is None:
            lo, hi = 0, 8
        elif lo is None:
            lo = Fraction(hi) - 8
        elif hi is None:
            hi = Fraction(lo) + 8
        x = float(Fraction(lo) + (Fraction(hi) - Fraction(lo)) * f)
        return np.float64(x) if isnp else x

    def int(self, name, lo, hi):
        return lo + int((hi - lo) * self._frac(name))

    def choice(self, name, options):
        options = list(options)
        return options[0 if self.variant % 2 == 0 else -1]

    def assume(self, cond):
        for c in (cond if isinstance(cond, (list, tuple)) else [cond]):
            if not c:
                raise PreludeEnd()

    def check(self, cond, label, margin=None):
        pass

    def eq(self, a, b, label):
        pass


class SymPrelude(Prelude, SymCtx):
    def __init__(self, loader_, variant):
        self._start(loader_, variant)


class ConcPrelude(Prelude, ConcCtx):
    def __init__(self, loader_, variant):
        self._start(loader_, variant)


def prelude(kind, loader_, uses):
    """Runs harnesses (function, parameters, variant) concretely on the modules of loader_."""
    for fn, params, variant in uses:
        try:
            with np.errstate(all="ignore"):
                fn(kind(loader_, variant), **params)
        except (PreludeEnd, PathEnd, AssumeFailed):
            pass
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                print("prelude", fn.__name__, params, variant, type(e).__name__, e, where(e))


# ---------------------------------------------------------------------------------------------------
# one harness instance
# ---------------------------------------------------------------------------------------------------

class Case(object):
    """A harness with fixed parameters, explored exhaustively."""

    def __init__(self, prop, name, fn, params, budget, after=()):
        self.prop, self.name, self.fn, self.params = prop, name, fn, params
        self.after = list(after)                    # earlier uses of the loaded modules
        self.budget = budget
        self.stats = Stats()
        self.candidates = {}
        self.confirmed = {}
        self.settled = set()
        self.inconclusive = []
        self.notes = {}
        self.labels = {}
        self.samples = []
        self.completed = False
        self.witness_limit = 12

    def replay(self, values, choices, stats, want=None):
        """Run the harness on the real code with concrete floats; Violation when a check fails."""
        stats.replays += 1
        keep = smod.CUR
        smod.CUR = None
        c = ConcCtx(values, choices, want)
        prelude(ConcPrelude, c.loader, self.after)
        try:
            with np.errstate(all="ignore"):
                self.fn(c, **self.params)
        except (AssumeFailed, EngineLimit):
            # what failed before is a failure all the same (the model knows no later inputs)
            if not c.failures:
                return None
        except Exception as e:
            absent = isinstance(e, ModuleNotFoundError) and not str(e.name).startswith("echidna")
            if absent or from_harness(e):
                if not c.failures:
                    self.notes["replay error in harness: %s: %s" % (type(e).__name__, e)] = 1
                    return None
            else:
                lab = "unexpected %s" % type(e).__name__
                c.failures.append((lab, "%s: %s at %s" % (type(e).__name__, e, where(e))))
        finally:
            smod.CUR = keep
        if c.failures:
            lab, det = c.failures[0]
            for l, d in c.failures:
                if l == want:
                    lab, det = l, d
            return Violation(lab, "check", det, c.used, dict(choices))
        stats.replay_agree += 1
        return None

    def run(self):
        t0 = time.time()
        deadline = t0 + self.budget
        work = [[]]
        self.completed = True
        witnesses = 0
        try:
            while work:
                prefix = work.pop()
                st = PathState(prefix, self.stats, deadline)
                smod.CUR = st
                c = SymCtx(self, st, prefix)
                ended = "ok"
                prelude(SymPrelude, c.loader, self.after)
                try:
                    if time.time() > deadline:
                        raise Budget()
                    with np.errstate(all="ignore"):
                        self.fn(c, **self.params)
                except PathEnd as e:
                    ended = "infeasible"
                except EngineLimit as e:
                    ended = "limit"
                    self._fallback(c, "engine limit: %s at %s" % (e, where(e)))
                except z3.Z3Exception as e:
                    ended = "limit"
                    self._fallback(c, "z3: %s at %s" % (e, where(e)))
                except RecursionError as e:
                    ended = "limit"
                    self._fallback(c, "recursion")
                except Exception as e:
                    ended = "exception"
                    self._unexpected(c, e)
                work.extend(st.pending)
                if ended == "infeasible":
                    self.stats.infeasible += 1
                    continue
                self.stats.paths += 1
                for w in st.incomplete:
                    self.inconclusive.append(("concretised", w))
                if ended == "ok" and witnesses < self.witness_limit and \
                        (self.stats.paths <= 6 or self.stats.paths % 7 == 0):
                    witnesses += 1
                    self._witness(c)
        except Budget:
            self.completed = False
        finally:
            smod.CUR = None
        self.wall = time.time() - t0
        return self

    def _model_values(self, c):
        cons = c.state.cons + c.state.lazy_instances()
        v = c.polish(cons, 4.0)
        if v is None:
            r, m = solve(c.state.cons, self.stats, 5000)
            if r == z3.sat:
                v = c.values(m)
        return v

    def _witness(self, c):
        vals = self._model_values(c)
        if vals is None:
            return
        if len(self.samples) < 3:
            self.samples.append(dict(path=self.stats.paths, choices=dict(c.choices),
                                     inputs={k: repr(v) for k, v in list(vals.items())[:12]}))
        v = self.replay(vals, c.choices, self.stats)
        if v is not None and v.label not in self.confirmed:
            v.kind = "witness"
            self.confirmed[v.label] = v

    def _fallback(self, c, why):
        """Path not encodable: say so and still try concrete models of what was explored."""
        self.inconclusive.append(("path", why))
        vals = self._model_values(c)
        if vals is None:
            return
        v = self.replay(vals, c.choices, self.stats)
        if v is not None and v.label not in self.confirmed:
            self.confirmed[v.label] = v

    def _unexpected(self, c, e):
        lab = "unexpected %s" % type(e).__name__
        detail = "%s: %s at %s" % (type(e).__name__, e, where(e))
        if lab in self.confirmed:
            return
        vals = self._model_values(c)
        if vals is not None:
            v = self.replay(vals, c.choices, self.stats, want=lab)
            if v is not None:
                if v.label not in self.confirmed:
                    self.confirmed[v.label] = v
                return
        self.inconclusive.append(("exception only in symbolic mode", detail))
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exception(type(e), e, e.__traceback__)


def where(e):
    tb = e.__traceback__
    out = ""
    while tb is not None:
        f = tb.tb_frame.f_code
        out = "%s:%d" % (f.co_filename, tb.tb_lineno)
        tb = tb.tb_next
    return out
