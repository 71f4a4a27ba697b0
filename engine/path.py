"""Path exploration: forks, feasibility, obligations, counterexamples."""
import math
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import sym
from .sym import EngineLimit, PathEnd, SymBool, SymInt, SymReal, is_sym, real_expr, bool_expr, numeral

BRANCH_TIMEOUT = 4000
CHECK_TIMEOUT = 20000
LN_EPS = Fraction(1, 10 ** 9)


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.branch_queries = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.unknown = 0
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.forks = 0
        self.replays = 0
        self.replay_agree = 0
        self.refinements = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


def frac_of(v):
    """Fraction approximating a z3 model value."""
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def ratnf(e, cache):
    """(numerator, denominator) division-free terms of a real term; opaque for other operators."""
    key = e.get_id()
    if key in cache:
        return cache[key][0]
    one = z3.RealVal(1)
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        n, d = ratnf(e.arg(0), cache)
        for c in e.children()[1:]:
            n2, d2 = ratnf(c, cache)
            if z3.eq(d, d2):
                n = n + n2 if k == z3.Z3_OP_ADD else n - n2
            elif numeral(d) == 1:
                n, d = (n * d2 + n2 if k == z3.Z3_OP_ADD else n * d2 - n2), d2
            elif numeral(d2) == 1:
                n = n + n2 * d if k == z3.Z3_OP_ADD else n - n2 * d
            else:
                n = n * d2 + n2 * d if k == z3.Z3_OP_ADD else n * d2 - n2 * d
                d = z3.simplify(d * d2, som=True)
        r = (n, d)
    elif k == z3.Z3_OP_MUL:
        n, d = one, one
        for c in e.children():
            n2, d2 = ratnf(c, cache)
            n = n * n2
            d = d2 if numeral(d) == 1 else (d if numeral(d2) == 1 else d * d2)
        r = (n, d)
    elif k == z3.Z3_OP_DIV:
        n, d = ratnf(e.arg(0), cache)
        n2, d2 = ratnf(e.arg(1), cache)
        r = (n * d2, d * n2)
    elif k == z3.Z3_OP_UMINUS:
        n, d = ratnf(e.arg(0), cache)
        r = (-n, d)
    elif k == z3.Z3_OP_POWER and numeral(e.arg(1)) is not None and numeral(e.arg(1)).denominator == 1 \
            and 0 < numeral(e.arg(1)) <= 6:
        n, d = ratnf(e.arg(0), cache)
        p = int(numeral(e.arg(1)))
        nn, dd = n, d
        for _ in range(p - 1):
            nn, dd = nn * n, dd * d
        r = (nn, dd)
    else:
        r = (e, one)
    cache[key] = (r, e)
    return r


def count_nodes(e, limit):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > limit:
            return limit + 1
        stack.extend(x.children())
    return len(seen)


class PathState(object):
    """State of the path being executed."""

    def __init__(self, prefix, stats, deadline):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.stats = stats
        self.deadline = deadline
        self.cons = []
        self.solver = z3.Solver()
        self.solver.set("timeout", BRANCH_TIMEOUT)
        self.model = None
        self.atoms = {}        # (kind, sexpr) -> const
        self.log_args = {}     # const id -> (const, arg)
        self.log_list = []
        self.exp_list = []
        self.lazy = []         # lemmas only used in later stages
        self.incomplete = []
        self.fresh = 0
        self.known_cache = {}
        sym.ratfun.reset()

    # -- solver plumbing --------------------------------------------------------------------------
    def add(self, e):
        self.cons.append(e)
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def _check(self, *extra):
        if time.time() > self.deadline:
            raise Budget()
        t = time.time()
        self.stats.queries += 1
        self.stats.branch_queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_time += time.time() - t
        if r == z3.sat:
            try:
                self.model = self.solver.model()
            except z3.Z3Exception:
                self.model = None
        return r

    def feasible(self, e):
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(e, model_completion=True)):
                    return True
            except z3.Z3Exception:
                pass
        keep = self.model
        r = self._check(e)
        if r == z3.unsat:
            self.model = keep
            return False
        if r != z3.sat:
            self.model = keep
        return True

    def known(self, e):
        """True/False when e is decided by the path condition, else None (no fork)."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = (e.get_id(), len(self.cons))
        if key in self.known_cache:
            return self.known_cache[key][0]
        t = self.feasible(e)
        f = self.feasible(z3.Not(e))
        r = True if not f else (False if not t else None)
        self.known_cache[key] = (r, e)
        return r

    def known_sign(self, e):
        """1, -1 or 0 (unknown) for a term that is not zero on this path."""
        key = ("sign", e.get_id())
        if key not in self.known_cache:
            r = self.known(e > 0)
            self.known_cache[key] = (1 if r is True else -1 if r is False else 0, e)
        return self.known_cache[key][0]

    # -- decisions ----------------------------------------------------------------------------------
    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(e if d else z3.Not(e))
            return bool(d)
        self.stats.decisions += 1
        t = self.feasible(e)
        if not t:
            self.trace.append(0)
            self.add(z3.Not(e))
            return False
        f = self.feasible(z3.Not(e))
        if f:
            self.stats.forks += 1
            self.pending.append(self.trace + [0])
        self.trace.append(1)
        self.add(e)
        return True

    def enumerate_int(self, e):
        """Fork over all values of an integer term."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if isinstance(d, tuple):            # ("v", value) or ("x", excluded values)
                if d[0] == "v":
                    self.trace.append(d)
                    self.add(e == d[1])
                    return d[1]
                excluded = list(d[1])
                for v in excluded:
                    self.add(e != v)
            else:
                raise EngineLimit("decision replay mismatch")
        else:
            excluded = []
        self.stats.decisions += 1
        r = self._check()
        if r == z3.unsat:
            raise PathEnd("infeasible")
        if r != z3.sat or self.model is None:
            raise EngineLimit("solver cannot enumerate an index")
        v = self.model.eval(e, model_completion=True)
        # prefer the smallest value by bisection-free search: take the model's value
        v = v.as_long()
        if self.feasible(z3.And(e != v, *[e != w for w in excluded])):
            if len(excluded) > 200:
                raise EngineLimit("unbounded index")
            self.stats.forks += 1
            self.pending.append(self.trace + [("x", tuple(excluded + [v]))])
        self.trace.append(("v", v))
        self.add(e == v)
        return v

    def concretise(self, e, why):
        """Fallback for operations that cannot be encoded: fix the value (path becomes incomplete)."""
        e = z3.simplify(e)
        n = numeral(e)
        if n is not None:
            return n
        i = len(self.trace)
        if i < len(self.prefix) and isinstance(self.prefix[i], tuple) and self.prefix[i][0] == "c":
            v = self.prefix[i][1]
        else:
            if self.model is None:
                self._check()
            if self.model is None:
                raise EngineLimit("no model to concretise: " + why)
            v = frac_of(self.model.eval(e, model_completion=True))
            if v is None:
                raise EngineLimit("cannot concretise: " + why)
        self.trace.append(("c", v))
        self.incomplete.append(why)
        self.add(e == z3.RealVal(v) if e.sort() == z3.RealSort() else e == int(v))
        return v

    def choose(self, n):
        """Nondeterministic choice among n options, all explored."""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i][1]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trace + [("n", k)])
        self.trace.append(("n", d))
        return d

    # -- atoms -----------------------------------------------------------------------------------------
    def new_const(self, kind):
        self.fresh += 1
        return z3.Real("%s!%d" % (kind, self.fresh))

    def atom(self, kind, e):
        e = z3.simplify(e, som=True)
        key = (kind, e.sexpr())
        if key in self.atoms:
            return self.atoms[key]
        c = self.new_const(kind)
        self.atoms[key] = c
        if kind == "sqrt":
            self.add(z3.And(c >= 0, c * c == e))
        elif kind == "exp":
            self.add(c > 0)
            for c2, e2 in self.exp_list:
                self.lazy.append(z3.And((e < e2) == (c < c2), (e == e2) == (c == c2)))
            self.lazy.append(z3.And((e < 0) == (c < 1), (e == 0) == (c == 1), c >= 1 + e))
            self.exp_list.append((c, e))
        return c

    def log_atom(self, e):
        # log of an exp atom is its argument
        for c2, e2 in self.exp_list:
            if z3.eq(c2, e):
                return e2
        e = z3.simplify(e, som=True)
        key = ("log", e.sexpr())
        if key in self.atoms:
            return self.atoms[key]
        c = self.new_const("log")
        self.atoms[key] = c
        for c2, e2 in self.log_list:
            self.lazy.append(z3.And((e < e2) == (c < c2), (e == e2) == (c == c2),
                                    e2 * (c - c2) <= e - e2, e * (c - c2) >= e - e2))
        self.lazy.append(z3.And((e < 1) == (c < 0), (e == 1) == (c == 0), c <= e - 1,
                                e * c >= e - 1))
        for k in (-30, -6, 6):
            v = Fraction(10) ** k
            l = Fraction(math.log(v))
            v_ = z3.RealVal(v)
            self.lazy.append(z3.And(z3.Implies(e >= v_, c >= z3.RealVal(l - LN_EPS)),
                                    z3.Implies(e <= v_, c <= z3.RealVal(l + LN_EPS))))
        self.log_list.append((c, e))
        self.log_args[c.get_id()] = (c, e)
        return c

    def log_arg(self, c):
        r = self.log_args.get(c.get_id())
        return r[1] if r else None

    def fn_atom(self, kind, e, axiom=None):
        """Uninterpreted function of one real argument as an atom with pairwise congruence."""
        e = z3.simplify(e, som=True)
        key = ("fn", kind, e.sexpr())
        if key in self.atoms:
            return self.atoms[key]
        c = self.new_const("fn_" + kind)
        for (k2, e2, c2) in [x for x in self.__dict__.setdefault("fn_list", []) if x[0] == kind]:
            self.lazy.append(z3.Implies(e == e2, c == c2))
        self.fn_list.append((kind, e, c))
        self.atoms[key] = c
        return c

    def lazy_instances(self):
        return list(self.lazy)

    def refine_from(self, model):
        """Concrete-point lemmas for log/exp atoms at the values of a spurious model."""
        out = []
        for c, e in self.log_list:
            v = frac_of(model.eval(e, model_completion=True))
            if v is None or v <= 0:
                continue
            try:
                ln = Fraction(math.log(v))
            except (OverflowError, ValueError):
                continue
            v_, l_ = z3.RealVal(v), ln
            out.append(z3.And(c <= z3.RealVal(l_ + LN_EPS) + (e - v_) / v_,
                              z3.Implies(e >= v_, c >= z3.RealVal(l_ - LN_EPS)),
                              z3.Implies(e <= v_, c <= z3.RealVal(l_ + LN_EPS))))
        for c, e in self.exp_list:
            v = frac_of(model.eval(e, model_completion=True))
            if v is None or abs(v) > 300:
                continue
            ex = Fraction(math.exp(v))
            out.append(z3.And(c >= z3.RealVal(ex * (1 - LN_EPS)) * (1 + e - z3.RealVal(v)),
                              z3.Implies(e <= z3.RealVal(v), c <= z3.RealVal(ex * (1 + LN_EPS))),
                              z3.Implies(e >= z3.RealVal(v), c >= z3.RealVal(ex * (1 - LN_EPS)))))
        return out


class Budget(BaseException):
    """The time budget of a case ran out."""


def solve(cons, stats, timeout=CHECK_TIMEOUT):
    """One z3 query; returns (result, model)."""
    t = time.time()
    stats.queries += 1
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.add(*cons)
    r = s.check()
    m = None
    if r == z3.sat:
        m = s.model()
    elif r == z3.unknown:
        # second attempt: nlsat after eliminating ite
        try:
            t2 = z3.Then(z3.With("simplify", som=True), "purify-arith", "elim-term-ite", "solve-eqs",
                         "qfnra-nlsat")
            s2 = t2.solver()
            s2.set("timeout", int(timeout))
            s2.add(*cons)
            stats.queries += 1
            r = s2.check()
            if r == z3.sat:
                m = s2.model()
        except z3.Z3Exception:
            r = z3.unknown
    stats.solver_time += time.time() - t
    return r, m
