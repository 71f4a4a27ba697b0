"""Canonical form of rational terms: numerator and denominator as polynomials without common factor.

Keeps divisions from nesting, so that e.g. d*(y/d) is y and p/(p+q) + q/(p+q) is 1.
Sub-terms that are not +, -, *, / or small integer powers are opaque generators.
Denominators are non-zero on the path (every division forks on that first).
"""
from fractions import Fraction

import z3

MAX_NODES = 400
MAX_GENS = 16
MAX_TERMS = 160

_fields = {}
_hasdiv = {}
_canon = {}


def reset():
    _hasdiv.clear()
    _canon.clear()


def numeral(e):
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS)


def has_div(e):
    """A division by a non-constant occurs in the arithmetic skeleton of e."""
    k = e.get_id()
    if k in _hasdiv:
        return _hasdiv[k][0]
    r = False
    if z3.is_app(e) and e.num_args():
        op = e.decl().kind()
        if op == z3.Z3_OP_DIV:
            r = numeral(e.arg(1)) is None or has_div(e.arg(0))
        elif op in ARITH:
            r = any(has_div(c) for c in e.children())
    _hasdiv[k] = (r, e)
    return r


class TooBig(Exception):
    pass


def ring(n):
    from sympy import QQ
    from sympy.polys.rings import ring as mkring
    if n not in _fields:
        _fields[n] = mkring(",".join("x%d" % i for i in range(n)) or "x0", QQ)[0]
    return _fields[n]


def small(p):
    if len(p) > MAX_TERMS:
        raise TooBig()
    return p


class Conv(object):
    def __init__(self, es):
        self.gens, self.index, self.count = [], {}, 0
        for e in es:
            self.scan(e, set())
        if len(self.gens) > MAX_GENS:
            raise TooBig()
        self.R = ring(max(len(self.gens), 1))
        self.cache = {}

    def scan(self, e, seen):
        stack = [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            self.count += 1
            if self.count > MAX_NODES:
                raise TooBig()
            if numeral(x) is not None:
                continue
            if z3.is_app(x):
                op = x.decl().kind()
                if op in ARITH or op == z3.Z3_OP_DIV:
                    stack.extend(x.children())
                    continue
                if op == z3.Z3_OP_POWER and self.power(x):
                    stack.append(x.arg(0))
                    continue
            if i not in self.index:
                self.index[i] = len(self.gens)
                self.gens.append(x)

    @staticmethod
    def power(x):
        n = numeral(x.arg(1))
        return n is not None and n.denominator == 1 and 0 < n <= 6

    def go(self, e):
        i = e.get_id()
        if i in self.cache:
            return self.cache[i]
        R = self.R
        n = numeral(e)
        if n is not None:
            from sympy import QQ
            r = (R.ground_new(QQ(n.numerator, n.denominator)), R.one)
        elif i in self.index:
            r = (R.gens[self.index[i]], R.one)
        else:
            op = e.decl().kind()
            c = [self.go(x) for x in e.children()] if op != z3.Z3_OP_POWER else None
            if op == z3.Z3_OP_ADD:
                r = c[0]
                for x in c[1:]:
                    r = self.add(r, x, 1)
            elif op == z3.Z3_OP_SUB:
                r = c[0]
                for x in c[1:]:
                    r = self.add(r, x, -1)
            elif op == z3.Z3_OP_MUL:
                r = c[0]
                for x in c[1:]:
                    r = self.mul(r, x)
            elif op == z3.Z3_OP_UMINUS:
                r = (-c[0][0], c[0][1])
            elif op == z3.Z3_OP_DIV:
                if c[1][0] == 0:
                    raise TooBig()
                r = self.mul(c[0], (c[1][1], c[1][0]))
            else:
                b = self.go(e.arg(0))
                r = b
                for _ in range(int(numeral(e.arg(1))) - 1):
                    r = self.mul(r, b)
        self.cache[i] = r
        return r

    def red(self, n, d):
        if n == 0:
            return self.R.zero, self.R.one
        if d.is_ground:
            return n * (1 / d.coeff(1)), self.R.one
        if n.is_ground:
            return self.R.one * 1, d * (1 / n.coeff(1))
        n, d = n.cancel(d)
        small(n)
        small(d)
        c = d.LC
        return n * (1 / c), d * (1 / c)

    def add(self, a, b, s):
        if a[1] == b[1]:
            n = a[0] + b[0] * s
            return self.red(small(n), a[1]) if not a[1].is_ground else (n, a[1])
        if a[1].is_ground:
            return small(small(a[0] * b[1]) * (1 / a[1].coeff(1)) + b[0] * s), b[1]
        if b[1].is_ground:
            return small(a[0] + small(b[0] * a[1]) * s * (1 / b[1].coeff(1))), a[1]
        g = a[1].gcd(b[1])
        ca, cb = a[1].exquo(g), b[1].exquo(g)
        return self.red(small(small(a[0] * cb) + small(b[0] * ca) * s), small(a[1] * cb))

    def mul(self, a, b):
        if a[0] == 0 or b[0] == 0:
            return self.R.zero, self.R.one
        n1, d2 = (a[0], b[1]) if b[1].is_ground else self.red(a[0], b[1])
        n2, d1 = (b[0], a[1]) if a[1].is_ground else self.red(b[0], a[1])
        return small(n1 * n2), small(d1 * d2)

    def back(self, p):
        """z3 term of a polynomial."""
        ts = []
        for mono, co in p.terms():
            f = []
            c = Fraction(int(co.numerator), int(co.denominator))
            for g, k in zip(self.gens, mono):
                f += [g] * k
            num = z3.RealVal(c)
            if not f:
                ts.append(num)
                continue
            if c != 1:
                f = [num] + f
            ts.append(f[0] if len(f) == 1 else z3.Product(f) if False else mul(f))
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)


def mul(fs):
    r = fs[0]
    for f in fs[1:]:
        r = r * f
    return r


def canon_nd(e):
    """(numerator, denominator) terms in lowest terms, or None when too big."""
    k = e.get_id()
    if k in _canon:
        return _canon[k][0]
    try:
        c = Conv([e])
        n, d = c.go(e)
        n, d = c.red(n, d)
        r = (c.back(n), c.back(d))
    except TooBig:
        r = None
    _canon[k] = (r, e)
    return r


def canon(e):
    """e in lowest terms (e itself when it has no division or is too big)."""
    if not has_div(e):
        return e
    r = canon_nd(e)
    if r is None:
        return e
    n, d = r
    if numeral(d) is not None:
        x = n if numeral(d) == 1 else n / d
    else:
        x = n / d
    _hasdiv[x.get_id()] = (numeral(d) is None, x)
    _canon[x.get_id()] = (r, x)
    return x
