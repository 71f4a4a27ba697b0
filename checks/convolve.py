"""C13-C16: shift, scale and smear."""
import numpy as np

from engine.registry import case
from checks.common import (Geo, arr_total, geometry, indices, same_state, spectrum, state, total)


def spline(ctx, x, y, k):
    if ctx.sym:
        from engine.stubs import SplineStub
        return SplineStub(x, y, k=k)
    from scipy.interpolate import InterpolatedUnivariateSpline
    return InterpolatedUnivariateSpline(x, y, k=k)


def positive_splines(ctx):
    """From here on only consider data whose interpolation is positive wherever it is evaluated."""
    if ctx.sym:
        from engine import sym
        sym.cur().spline_positive = True


def marg(data, axis):
    return [total(data[i] for i in indices(data.shape) if i[axis] == b) for b in range(data.shape[axis])]


def contents(ctx, shape, how, prefix="d"):
    if how == "positive":
        return ctx.reals(prefix, shape, 0.125, 100)
    return ctx.reals(prefix, shape, 0, 100)


def geos_for(shape, axis, low, width):
    return [Geo("energy_mc", low, width, n) if a == axis else Geo(["radial_mc", "time_mc", "a_mc"][a], 1., 0.5, n)
            for a, n in enumerate(shape)]


def same_frame(ctx, res, old, s, label):
    """The result has the geometry and number of decays of the input."""
    ctx.eq(geometry(res), old["geo"], label + " (binning)")
    ctx.eq(res.get_num_decays(), old["decays"], label + " (number of decays)")
    ctx.check(tuple(res._data.shape) == tuple(old["data"].shape), label + " (shape)")


# -- C13 -------------------------------------------------------------------------------------------
@case("C13", quick=[dict(shape=(3,), axis=0), dict(shape=(2, 3), axis=0), dict(shape=(3, 2), axis=0),
                    dict(shape=(2, 3), axis=1), dict(shape=(2, 2, 3), axis=2), dict(shape=(2, 3, 2), axis=1)],
      thorough=[dict(shape=(6,), axis=0), dict(shape=(4, 4), axis=1), dict(shape=(3, 2, 3), axis=0)])
def whole_bins(ctx, shape, axis):
    sh = ctx.load("echidna.core.shift")
    n = shape[axis]
    # concrete float geometries, so that rounding in the real code is seen
    low, width = ctx.choice("geometry", [(0., 0.1), (-2.3, 0.7), (1., 0.25)])
    k = ctx.choice("bins_moved", list(range(-n - 1, n + 2)))
    geos = geos_for(shape, axis, low, width)
    s = spectrum(ctx, geos, data=contents(ctx, shape, "any"), num_decays=ctx.real("decays", 1))
    old = state(ctx, s)
    shifter = sh.Shift()
    shifter.set_shift(k * width)
    ctx.eq(shifter.get_shift(), k * width, "the shift set is the one returned")
    f = ctx.choice("by", [shifter.shift, shifter.shift_by_bin])
    res = f(s, "energy_mc")
    same_frame(ctx, res, old, s, "a shifted spectrum keeps its binning")
    for i in indices(shape):
        j = list(i)
        j[axis] -= k
        want = old["data"][tuple(j)] if 0 <= j[axis] < n else 0.
        ctx.eq(res._data[i], want, "a shift by whole bins moves contents by that many bins")
    same_state(ctx, s, old, "shifting leaves its input alone")


@case("C13", quick=[dict(shape=(3,), axis=0), dict(shape=(2, 3), axis=1)], thorough=[dict(shape=(5,), axis=0)])
def whole_bins_any_geometry(ctx, shape, axis):
    sh = ctx.load("echidna.core.shift")
    n = shape[axis]
    low, width = ctx.real("low", -50, 50), ctx.real("width", 0.0625, 10)
    k = ctx.choice("bins_moved", list(range(-n, n + 1)))
    geos = geos_for(shape, axis, low, width)
    s = spectrum(ctx, geos, data=contents(ctx, shape, "any"))
    old = state(ctx, s)
    shifter = sh.Shift()
    shifter.set_shift(k * width)
    res = shifter.shift(s, "energy_mc")
    for i in indices(shape):
        j = list(i)
        j[axis] -= k
        want = old["data"][tuple(j)] if 0 <= j[axis] < n else 0.
        ctx.eq(res._data[i], want, "a shift by whole bins moves contents by that many bins")


@case("C13", quick=[dict()])
def not_whole(ctx):
    sh = ctx.load("echidna.core.shift")
    s = spectrum(ctx, geos_for((3,), 0, 0., 1.))
    old = state(ctx, s)
    v = ctx.real("shift", -5, 5)
    ctx.assume(ctx.abs(v - ctx.floor(v) - 0.5) <= 0.49)
    shifter = sh.Shift()
    shifter.set_shift(v)
    ctx.refuses(shifter.shift_by_bin, s, "energy_mc", label="shift_by_bin refuses other shifts")
    same_state(ctx, s, old, "shifting leaves its input alone")
    ctx.eq(sh.Shift().get_shift(), 0., "nothing is shifted before a shift is set")


def interpolated(ctx, res, old, s, axis, where, k, label, edge=False):
    """Marginal of the result proportional to the interpolation at where(centre); everything else kept."""
    g = s.get_config().get_par("energy_mc")
    low, n = g._low, g._bins
    w = (g._high - g._low) / n
    f = spline(ctx, [low + (b + 0.5) * w for b in range(n)], marg(old["data"], axis), k)
    got = marg(res._data, axis)
    ys, near = {}, []
    for b in range(n):
        v = where(low + (b + 0.5) * w)
        if v < low:
            ctx.eq(got[b], 0., label + ": bins fed from outside the range are empty")
            continue
        if v >= g._high:
            ctx.eq(got[b], 0., label + ": bins fed from outside the range are empty")
            continue
        if v < low + 0.5 * w:
            v = low + 0.5 * w
        elif v > g._high - 0.5 * w - 2e-6:
            if edge:
                near.append((b, f(g._high - 0.5 * w)))
            continue                   # the last half bin is evaluated up to 1e-6 inside
        y = f(v)
        if y <= 0:
            ctx.eq(got[b], 0., label + ": contents are never negative")
            continue
        ys[b] = y
    bs = sorted(ys)
    for a, b in zip(bs[:-1], bs[1:]):
        ctx.eq(got[a] * ys[b], got[b] * ys[a], label + ": contents follow the interpolated distribution")
    for b, y in near[:1]:
        for a in bs[-1:]:
            ctx.check(ctx.abs(got[a] * y - got[b] * ys[a]) <= 1e-4 * arr_total(old["data"]) * ys[a],
                      label + ": contents follow the interpolated distribution up to the edge")
    if bs:
        ctx.check(got[bs[0]] > 0, label + ": contents follow the interpolated distribution")
        ctx.eq(arr_total(res._data), arr_total(old["data"]), label + ": the total is preserved")
    return ys


def shift_once(ctx, n, data, v, k, low, width):
    sh = ctx.load("echidna.core.shift")
    s = spectrum(ctx, geos_for((n,), 0, low, width), data=data, num_decays=ctx.real("decays", 1))
    old = state(ctx, s)
    shifter = sh.Shift()
    shifter.set_shift(v)
    ctx.eq(shifter.get_shift(), v, "the shift set is the one returned")
    if k == 3:
        positive_splines(ctx)
    res = shifter.shift(s, "energy_mc", k=k)
    same_frame(ctx, res, old, s, "a shifted spectrum keeps its binning")
    interpolated(ctx, res, old, s, 0, lambda x: x - v, k, "a fractional shift")
    same_state(ctx, s, old, "shifting leaves its input alone")


@case("C13", quick=[dict(n=2, k=1, how="any"), dict(n=3, k=1, how="any"), dict(n=4, k=3, how="positive")],
      thorough=[dict(n=5, k=1, how="any"), dict(n=6, k=3, how="positive")])
def some_shifts(ctx, n, k, how):
    """Any contents, a number of shifts."""
    low, width = ctx.choice("geometry", [(1., 0.5), (-1., 1.)])
    v = ctx.choice("shift", [0.2, -0.3, 0.6, 1.25, -1.7]) * width
    shift_once(ctx, n, contents(ctx, (n,), how), v, k, low, width)


PATTERNS = [[5., 1., 3., 7., 2.], [0., 4., 0., 0., 1.], [1., 2., 3., 4., 5.], [0., 0., 6., 0., 0.]]


@case("C13", quick=[dict(n=3), dict(n=4)], thorough=[dict(n=5), dict(n=2)])
def any_shift(ctx, n):
    """Any shift, a number of contents."""
    low, width = ctx.choice("geometry", [(1., 0.5), (-1., 1.)])
    data = ctx.arr(np.array(ctx.choice("contents", PATTERNS)[:n]))
    v = ctx.real("shift", -(n + 1) * width, (n + 1) * width)
    r = v / width
    ctx.assume(ctx.abs(r - ctx.floor(r) - 0.5) <= 0.499)
    shift_once(ctx, n, data, v, 1, low, width)


@case("C13", quick=[dict()], thorough=[dict()], budget=60)
def any_shift_any_contents(ctx):
    v = ctx.real("shift", -3., 3.)
    ctx.assume(ctx.abs(v - ctx.floor(v) - 0.5) <= 0.499)
    shift_once(ctx, 2, contents(ctx, (2,), "positive"), v, 1, -1., 1.)


def product_data(ctx, shape, axis):
    f = [ctx.real("f%d" % i, 0.125, 100) for i in range(shape[axis])]
    other = [n for a, n in enumerate(shape) if a != axis]
    g = dict((j, ctx.real("g" + "_".join(map(str, j)), 0.125, 1)) for j in indices(tuple(other)))
    d = np.empty(shape, dtype=object)
    for i in indices(shape):
        d[i] = f[i[axis]] * g[tuple(x for a, x in enumerate(i) if a != axis)]
    return ctx.arr(d), g


def profile(ctx, res, shape, axis, g, label):
    """Every slice along axis has the profile g of the input's slices."""
    for b in range(shape[axis]):
        cells = []
        for i in indices(shape):
            if i[axis] == b:
                cells.append((res._data[i], g[tuple(x for a, x in enumerate(i) if a != axis)]))
        for (x, p), (y, q) in zip(cells[:-1], cells[1:]):
            ctx.eq(x * q, y * p, label)


@case("C13", quick=[dict(shape=(2, 2), axis=0, k=1), dict(shape=(2, 2), axis=1, k=1)],
      thorough=[dict(shape=(3, 2), axis=0, k=1), dict(shape=(2, 2, 2), axis=1, k=1)])
def other_dimensions(ctx, shape, axis, k):
    sh = ctx.load("echidna.core.shift")
    d, g = product_data(ctx, shape, axis)
    s = spectrum(ctx, geos_for(shape, axis, 1., 0.5), data=d)
    old = state(ctx, s)
    v = ctx.real("shift", -1., 1.)
    ctx.assume(ctx.abs(2 * v - ctx.floor(2 * v) - 0.5) <= 0.499)
    shifter = sh.Shift()
    shifter.set_shift(v)
    res = shifter.shift(s, "energy_mc", k=k)
    profile(ctx, res, shape, axis, g, "a fractional shift leaves the other dimensions alone")
    same_state(ctx, s, old, "shifting leaves its input alone")


@case("C13", quick=[dict()])
def all_out(ctx):
    """Shifting everything out of range leaves an empty spectrum; so does shifting an empty one."""
    sh = ctx.load("echidna.core.shift")
    empty = ctx.choice("empty", [False, True])
    data = ctx.arr(np.zeros(4)) if empty else contents(ctx, (4,), "positive")
    s = spectrum(ctx, geos_for((4,), 0, 1., 0.5), data=data)
    old = state(ctx, s)
    shifter = sh.Shift()
    shifter.set_shift(ctx.choice("shift", [0.3, -0.6]) if empty else ctx.choice("shift", [2.3, -7.3, 11.1]))
    res = shifter.shift(s, "energy_mc")
    for i in range(4):
        ctx.eq(res._data[i], 0., "contents that leave the range are lost")
    same_frame(ctx, res, old, s, "a shifted spectrum keeps its binning")


def share(ctx, what, shape, axis, k, values):
    """Where neighbouring bins have the same content, each gives the part of a bin that overlaps it."""
    m = ctx.load("echidna.core." + what)
    n, other = shape[axis], shape[1 - axis]
    low, width = ctx.choice("geometry", [(1., 0.5), (0., 1.)])
    c = ctx.real("content", 1, 100)
    d = np.empty(shape, dtype=object)
    x = [[ctx.real("x%d_%d" % (b, j), 0.01, 0.5 / other) for j in range(other - 1)] for b in range(n)]
    for b in range(n):
        x[b].append(1. - total(x[b]))
        for j in range(other):
            d[(b, j) if axis == 0 else (j, b)] = c * x[b][j]
    s = spectrum(ctx, geos_for(shape, axis, low, width), data=ctx.arr(d))
    v = ctx.choice("value", values)
    if what == "shift":
        o, v = m.Shift(), v * width
        o.set_shift(v)
        res, back = o.shift(s, "energy_mc", k=k), lambda p: p - v
    else:
        o = m.Scale()
        o.set_scale_factor(v)
        res, back = o.scale(s, "energy_mc", k=k), lambda p: p / v
    for b in range(n):
        p = (back(low + (b + 0.5) * width) - low) / width - 0.5      # in bins: whole numbers are centres
        if p < -0.499 or p > n - 0.501:
            continue
        p = min(max(p, 0.), n - 1.)
        i = min(int(np.floor(p)), n - 2)
        f = p - i
        if abs(f - 0.5) < 0.01:
            continue
        cells = [res._data[(b, j) if axis == 0 else (j, b)] for j in range(other)]
        t = total(cells)
        for j in range(other):
            # the content is that between the first and last centre, so half of the outer bins
            left, right = min(1 - f, 0.5 if i == 0 else 1), min(f, 0.5 if i == n - 2 else 1)
            want = (x[i][j] * left + x[i + 1][j] * right) / (left + right)
            ctx.check(ctx.abs(cells[j] - t * want) <= 1e-5 * t,
                      "every bin a bin's contents come from gives its part, with its other dimensions")


@case("C13", quick=[dict(shape=(4, 2), axis=0, k=1), dict(shape=(2, 5), axis=1, k=3)],
      thorough=[dict(shape=(6, 3), axis=0, k=3)])
def shares(ctx, shape, axis, k):
    share(ctx, "shift", shape, axis, k, [0.2, -0.3, 0.9, 1.25, -1.7])


def overshoot(ctx, what, pattern, values):
    """Interpolations that are negative somewhere give no negative contents."""
    m = ctx.load("echidna.core." + what)
    x = ctx.real("content", 0.125, 100)
    s = spectrum(ctx, geos_for((len(pattern),), 0, 1., 0.5), data=ctx.arr(np.array([x * p for p in pattern], dtype=object)))
    v = ctx.choice("value", values)
    o = m.Shift() if what == "shift" else m.Scale()
    (o.set_shift if what == "shift" else o.set_scale_factor)(v * 0.5 if what == "shift" else v)
    res = getattr(o, what)(s, "energy_mc")
    for b in range(len(pattern)):
        ctx.check(res._data[b] >= 0, "contents are never negative")
    ctx.eq(arr_total(res._data), x * total(pattern), "the total is preserved")


SHARP = [(0., 0., 1., 0., 0., 0.), (0., 0., 0., 1., 1., 0., 0.), (3., 0., 0., 0., 2.)]


def to_the_edge(ctx, what, k, values):
    """The last half bin has the contents of the last bin."""
    m = ctx.load("echidna.core." + what)
    x = ctx.real("content", 0.125, 100)
    n = 5
    low, width = ctx.choice("geometry", [(1., 0.5), (0., 1.)])
    data = ctx.arr(np.array([x * p for p in (5., 4., 3., 7., 2.)], dtype=object))
    s = spectrum(ctx, geos_for((n,), 0, low, width), data=data)
    old = state(ctx, s)
    v = ctx.choice("value", values)
    if what == "shift":
        v = v * width
        o, back = m.Shift(), lambda p: p - v
        o.set_shift(v)
    else:
        o, back = m.Scale(), lambda p: p / v
        o.set_scale_factor(v)
    res = getattr(o, what)(s, "energy_mc", k=k)
    interpolated(ctx, res, old, s, 0, back, k, "a moved axis", edge=True)


@case("C13", quick=[dict(k=1), dict(k=3)])
def edges(ctx, k):
    to_the_edge(ctx, "shift", k, [-0.3, -0.2, 0.3, -1.4, 1.4])


@case("C13", quick=[dict(pattern=p) for p in SHARP])
def never_negative(ctx, pattern):
    overshoot(ctx, "shift", pattern, [0.5, -0.4, 1.3])


# -- C14 -------------------------------------------------------------------------------------------
@case("C14", quick=[dict(shape=(3,), axis=0, k=1, how="any"), dict(shape=(4,), axis=0, k=3, how="positive"),
                    dict(shape=(2, 3), axis=1, k=1, how="any"), dict(shape=(2, 2), axis=0, k=1, how="any"),
                    dict(shape=(2, 2, 2), axis=1, k=1, how="positive")],
      thorough=[dict(shape=(6,), axis=0, k=3, how="positive"), dict(shape=(4,), axis=0, k=1, how="any"),
                dict(shape=(3, 3), axis=0, k=1, how="positive")])
def factor_one(ctx, shape, axis, k, how):
    """Factor one is the identity, whatever the contents."""
    sc = ctx.load("echidna.core.scale")
    s = spectrum(ctx, geos_for(shape, axis, 1., 0.5), data=contents(ctx, shape, how), num_decays=ctx.real("decays", 1))
    if k == 3:
        positive_splines(ctx)
    old = state(ctx, s)
    scaler = sc.Scale()
    ctx.eq(scaler.get_scale_factor(), 1., "the factor is one until it is set")
    if ctx.choice("set", [False, True]):
        scaler.set_scale_factor(2.)
        scaler.set_scale_factor(1.)
    res = scaler.scale(s, "energy_mc", k=k)
    same_frame(ctx, res, old, s, "a scaled axis keeps its binning")
    for i in indices(shape):
        ctx.eq(res._data[i], old["data"][i], "factor one changes nothing")
    same_state(ctx, s, old, "scaling the axis leaves its input alone")


def scale_once(ctx, n, data, v, k, low, width):
    sc = ctx.load("echidna.core.scale")
    s = spectrum(ctx, geos_for((n,), 0, low, width), data=data, num_decays=ctx.real("decays", 1))
    old = state(ctx, s)
    scaler = sc.Scale()
    scaler.set_scale_factor(v)
    ctx.eq(scaler.get_scale_factor(), v, "the factor set is the one returned")
    if k == 3:
        positive_splines(ctx)
    res = scaler.scale(s, "energy_mc", k=k)
    same_frame(ctx, res, old, s, "a scaled axis keeps its binning")
    interpolated(ctx, res, old, s, 0, lambda x: x / v, k, "a scaled axis")
    same_state(ctx, s, old, "scaling the axis leaves its input alone")


@case("C14", quick=[dict(n=2, k=1, how="any"), dict(n=3, k=1, how="any"), dict(n=4, k=3, how="positive")],
      thorough=[dict(n=5, k=1, how="any"), dict(n=6, k=3, how="positive")])
def some_factors(ctx, n, k, how):
    """Any contents, a number of factors."""
    low, width = ctx.choice("geometry", [(1., 0.5), (0., 1.)])
    v = ctx.choice("factor", [0.5, 0.8, 0.97, 1.02, 1.3, 2.])
    scale_once(ctx, n, contents(ctx, (n,), how), v, k, low, width)


@case("C14", quick=[dict(n=3), dict(n=4, geo=1, pats=2)], thorough=[dict(n=4), dict(n=5), dict(n=2)])
def any_factor(ctx, n, geo=2, pats=4):
    """Any factor, a number of contents."""
    low, width = ctx.choice("geometry", [(1., 0.5), (0., 1.)][:geo])
    data = ctx.arr(np.array(ctx.choice("contents", PATTERNS[:pats])[:n]))
    v = ctx.real("factor", 0.25, 4.)
    scale_once(ctx, n, data, v, 1, low, width)


# (dimensions, axis convolved, low edge, bin width)
TURNS = [((3,), 0, 1., 0.5), ((3,), 0, 0., 0.5), ((3,), 0, 1., 0.25), ((4,), 0, 1., 0.5), ((3, 2), 0, 1., 0.5)]


def in_turn(ctx, make, again, first, values, where, label):
    """One object, or two, used on spectra after one another: what was done before has no part in the second."""
    conv, apply, set_to = make()
    uses = [ctx.choice("first", range(len(TURNS))), ctx.choice("second", range(len(TURNS)))]
    given = [values[first], ctx.choice("second value", values)]
    patterns = ctx.choice("contents", [(0, 1), (2, 0)])
    for m, (u, v) in enumerate(zip(uses, given)):
        shape, axis, low, width = TURNS[u]
        if m and not again:
            conv, apply, set_to = make()
        if not (m and again and given[0] == v):
            set_to(v)
        d = np.array(PATTERNS[patterns[m]][:shape[0]])
        if len(shape) > 1:
            d = np.stack([d, 2. * d], 1)
        d = d.astype(object)
        if m:
            d = d * ctx.real("times", 0.5, 5.)
        s = spectrum(ctx, geos_for(shape, axis, low, width), data=ctx.arr(d))
        old = state(ctx, s)
        res = apply(s, "energy_mc", k=1)
        same_frame(ctx, res, old, s, label)
        interpolated(ctx, res, old, s, axis, lambda x: where(x, v), 1, label)
        same_state(ctx, s, old, "a convolution leaves its input alone")


@case("C13", quick=[dict(again=a, first=v) for a in (True, False) for v in (0, 1)])
def shifts_in_turn(ctx, again, first):
    def make():
        sh = ctx.load("echidna.core.shift").Shift()
        return sh, sh.shift, sh.set_shift
    in_turn(ctx, make, again, first, [0.2, -0.3], lambda x, v: x - v, "shifts in turn")


@case("C14", quick=[dict(again=a, first=v) for a in (True, False) for v in (0, 1)])
def scales_in_turn(ctx, again, first):
    def make():
        sc = ctx.load("echidna.core.scale").Scale()
        return sc, sc.scale, sc.set_scale_factor
    in_turn(ctx, make, again, first, [0.8, 1.3], lambda x, v: x / v, "axes scaled in turn")


@case("C14", quick=[dict(n=2, mode="product")], thorough=[dict(n=3, mode="product")])
def slices_alike(ctx, n, mode):
    sc = ctx.load("echidna.core.scale")
    axis = ctx.choice("axis", [0, 1])
    shape = (n, 2) if axis == 0 else (2, n)
    d, g = product_data(ctx, shape, axis)
    s = spectrum(ctx, geos_for(shape, axis, 1., 0.5), data=d)
    old = state(ctx, s)
    v = ctx.real("factor", 0.5, 2.)
    scaler = sc.Scale()
    scaler.set_scale_factor(v)
    res = scaler.scale(s, "energy_mc", k=1)
    profile(ctx, res, shape, axis, g, "scaling an axis treats every slice alike")
    same_state(ctx, s, old, "scaling the axis leaves its input alone")
    same_frame(ctx, res, old, s, "a scaled axis keeps its binning")


@case("C14", quick=[dict(shape=(3, 2), axis=0), dict(shape=(2, 3), axis=1)],
      thorough=[dict(shape=(4, 2), axis=0), dict(shape=(2, 2, 2), axis=1)])
def scaled_marginal(ctx, shape, axis):
    """In several dimensions the marginal follows the interpolation of the marginal."""
    sc = ctx.load("echidna.core.scale")
    s = spectrum(ctx, geos_for(shape, axis, 1., 0.5), data=contents(ctx, shape, "positive"))
    old = state(ctx, s)
    v = ctx.choice("factor", [0.8, 1.1, 1.6])
    scaler = sc.Scale()
    scaler.set_scale_factor(v)
    res = scaler.scale(s, "energy_mc", k=1)
    same_frame(ctx, res, old, s, "a scaled axis keeps its binning")
    interpolated(ctx, res, old, s, axis, lambda x: x / v, 1, "a scaled axis")


@case("C14", quick=[dict(shape=(5, 2), axis=0, k=1), dict(shape=(2, 4), axis=1, k=3)],
      thorough=[dict(shape=(6, 3), axis=0, k=3)])
def shares(ctx, shape, axis, k):
    share(ctx, "scale", shape, axis, k, [0.8, 0.97, 1.1, 1.6])


@case("C14", quick=[dict(k=1), dict(k=3)])
def scaled_edges(ctx, k):
    to_the_edge(ctx, "scale", k, [0.8, 0.85, 0.94, 0.97, 1.1])


@case("C14", quick=[dict(pattern=p) for p in SHARP])
def never_negative_scaled(ctx, pattern):
    overshoot(ctx, "scale", pattern, [0.8, 0.97, 1.1, 1.6])


@case("C14", quick=[dict()])
def factor_settings(ctx):
    sc = ctx.load("echidna.core.scale")
    scaler = sc.Scale()
    good = ctx.real("good", -10, 10)
    bad = ctx.real("bad", -10, 10)
    if good <= 0:
        ctx.refuses(scaler.set_scale_factor, good, label="a factor that is not positive is refused")
        ctx.eq(scaler.get_scale_factor(), 1., "a refused factor leaves the previous one")
        return
    scaler.set_scale_factor(good)
    ctx.eq(scaler.get_scale_factor(), good, "the factor set is the one returned")
    if bad <= 0:
        ctx.refuses(scaler.set_scale_factor, bad, label="a factor that is not positive is refused")
        ctx.eq(scaler.get_scale_factor(), good, "a refused factor leaves the previous one")
    else:
        scaler.set_scale_factor(bad)
        ctx.eq(scaler.get_scale_factor(), bad, "the factor set is the one returned")


@case("C14", quick=[dict()])
def scaled_out(ctx):
    sc = ctx.load("echidna.core.scale")
    empty = ctx.choice("empty", [False, True])
    data = ctx.arr(np.zeros(4)) if empty else contents(ctx, (4,), "positive")
    s = spectrum(ctx, geos_for((4,), 0, 1., 0.5), data=data)
    old = state(ctx, s)
    scaler = sc.Scale()
    scaler.set_scale_factor(1.1 if empty else ctx.choice("factor", [0.3, 5.]))
    res = scaler.scale(s, "energy_mc")
    for i in range(4):
        ctx.eq(res._data[i], 0., "contents that leave the range are lost")
    same_frame(ctx, res, old, s, "a scaled axis keeps its binning")


# -- C15 / C16 -------------------------------------------------------------------------------------
def smearer(ctx, kind):
    """(smearer, resolution law sigma(E), setting)"""
    sm = ctx.load("echidna.core.smear")
    if kind.startswith("ly"):
        return sm.EnergySmearLY(poisson=kind.endswith("poisson")), (lambda e, r: ctx.sqrt(e / r))
    if kind.startswith("res"):
        return sm.EnergySmearRes(poisson=kind.endswith("poisson")), (lambda e, r: r * ctx.sqrt(e))
    return sm.RadialSmear(), (lambda e, r: r)


def settings(kind):
    # E * light yield stays off integers, where rounding would decide the number of photons
    return {"l": [201.3, 40.3], "r": [0.0703, 0.29], "m": [0.4, 2.5]}[kind[0]]


def weight(kind, x, mean, sigma, r):
    """Value of the resolution function at x for contents at mean (plain numbers)."""
    import math
    if kind.endswith("poisson"):
        ly = r if kind[0] == "l" else 1. / r ** 2
        photons = int(x * ly)
        assert abs(x * ly - round(x * ly)) > 1e-6
        return math.exp(photons * math.log(mean * ly) - math.lgamma(photons + 1) - mean * ly)
    return math.exp(-(x - mean) ** 2 / (2 * sigma ** 2))


KINDS = ["ly_gauss", "ly_poisson", "res_gauss", "res_poisson", "mm"]


def redistributed(ctx, data, axis, low, width, kind, r, num):
    """The contents after smearing along axis."""
    import math
    n = data.shape[axis]
    cs = [low + (b + 0.5) * width for b in range(n)]
    w = np.zeros((n, n))
    for a in range(n):
        sig = float({"l": math.sqrt(cs[a] / r), "r": r * math.sqrt(cs[a]), "m": r}[kind[0]])
        for b in range(n):
            d = abs(cs[a] - cs[b])
            if a == b or d <= num * sig + 0.499 * width:
                w[a, b] = weight(kind, cs[b], cs[a], sig, r)
            # bins closer than rounding to the end of the window may be in or out
            if a != b and abs(d - num * sig - 0.5 * width) < 0.002 * width:
                ctx.assume(False)
        w[a] /= w[a].sum()
    want = np.zeros(data.shape, dtype=object)
    for j in indices(data.shape):
        for a in range(n):
            i = list(j)
            i[axis] = a
            want[j] = want[j] + data[tuple(i)] * float(w[a, j[axis]])
    return want


@case("C15", quick=[dict(shape=(5,), axis=0, kind=k) for k in KINDS] +
      [dict(shape=(2, 3), axis=1, kind=k, sparse=True) for k in KINDS] +
      [dict(shape=(3, 2), axis=0, kind=k, sparse=True) for k in ("ly_gauss", "mm")] +
      [dict(shape=(1, 3, 2), axis=1, kind=k, sparse=True) for k in ("res_poisson", "mm")],
      thorough=[dict(shape=(7,), axis=0, kind=k) for k in KINDS] +
      [dict(shape=(2, 3, 2), axis=1, kind=k, sparse=True) for k in KINDS])
def smears_contents(ctx, shape, axis, kind, sparse=False):
    """Any contents, a number of resolutions and windows: the result is the exact weighted sum."""
    n = shape[axis]
    # edges that floats represent exactly: numpy.arange may otherwise add a bin at the end of the window
    low, width = ctx.choice("geometry", [(1., 0.5), (0., 1.), (2.5, 0.125)])
    s = spectrum(ctx, geos_for(shape, axis, low, width), num_decays=ctx.real("decays", 1), raw=7,
                 data=contents(ctx, shape, "positive"))
    if sparse:                                   # one arbitrary cell is empty
        hole = ctx.choice("empty", [None] + indices(shape))
        if hole is not None:
            s._data[hole] = 0.
    else:
        s._data[ctx.choice("some", [0, n - 1])] = ctx.real("any", -100, 100)      # the rule is linear: any sign
    old = state(ctx, s)
    sm, law = smearer(ctx, kind)
    r = ctx.choice("resolution", settings(kind))
    num = ctx.choice("sigmas", [5., 1.3])
    sm.set_resolution(r)
    sm.set_num_sigma(num)
    ctx.eq(sm.get_num_sigma(), num, "the window set is the one used")
    par = "energy_mc"
    res = sm.weighted_smear(s, par)
    same_frame(ctx, res, old, s, "a smeared spectrum keeps its binning")
    ctx.eq(res._raw_events, 7, "a smeared spectrum keeps its event counter")
    want = redistributed(ctx, old["data"], axis, low, width, kind, r, num)
    for j in indices(shape):
        ctx.eq(res._data[j], want[j], "each bin is redistributed by the normalised resolution function")
    for o in indices(tuple(m for k, m in enumerate(shape) if k != axis)):
        before = after = 0.
        for a in range(n):
            i = list(o)
            i.insert(axis, a)
            before, after = before + old["data"][tuple(i)], after + res._data[tuple(i)]
        ctx.eq(after, before, "nothing is created or lost, dimension by dimension")
    same_state(ctx, s, old, "smearing leaves its input alone")


# (dimensions, axis smeared, low edge, bin width): spectra one smearer is used on in turn
USES = [((4,), 0, 1., 0.5), ((4,), 0, 0., 0.5), ((4,), 0, 1., 0.25), ((3,), 0, 1., 0.5), ((4, 2), 0, 1., 0.5),
        ((2, 4), 1, 1., 0.5)]


@case("C15", quick=[dict(kind=k) for k in KINDS])
def smears_in_turn(ctx, kind):
    """What a smearer did before has no part in what it does."""
    sm, _ = smearer(ctx, kind)
    r = settings(kind)[1]
    sm.set_resolution(r)
    again = ctx.choice("same smearer", [True, False])
    for m, u in enumerate([ctx.choice("first", range(len(USES))), ctx.choice("second", range(len(USES)))]):
        shape, axis, low, width = USES[u]
        if m and not again:
            sm, _ = smearer(ctx, kind)
            sm.set_resolution(r)
        s = spectrum(ctx, geos_for(shape, axis, low, width), data=contents(ctx, shape, "positive", "u%d_" % m))
        old = state(ctx, s)
        res = sm.weighted_smear(s, "energy_mc")
        same_frame(ctx, res, old, s, "a smeared spectrum keeps its binning")
        want = redistributed(ctx, old["data"], axis, low, width, kind, r, 5.)
        for j in indices(shape):
            ctx.eq(res._data[j], want[j], "smearers used in turn each redistribute by their own resolution function")


@case("C15", quick=[dict(n=2, kind="mm"), dict(n=3, kind="mm"), dict(n=2, kind="res_gauss"), dict(n=2, kind="ly_gauss")],
      thorough=[dict(n=4, kind="mm"), dict(n=3, kind="res_gauss"), dict(n=3, kind="ly_gauss")])
def smears_any_resolution(ctx, n, kind):
    """Any resolution and any contents of one bin."""
    low, width = 1., 1.
    i = ctx.choice("bin", list(range(n)))
    e = ctx.real("entries", 0.125, 100)
    data = np.zeros(n, dtype=object)
    data[i] = e
    s = spectrum(ctx, geos_for((n,), 0, low, width), data=ctx.arr(data))
    sm, law = smearer(ctx, kind)
    r = ctx.real("resolution", *{"m": (0.03, 3.), "r": (0.03, 0.9), "l": (1., 400.)}[kind[0]])
    sm.set_resolution(r)
    ctx.eq(sm.get_resolution(), r, "the resolution set is the one returned")
    res = sm.weighted_smear(s, "energy_mc")
    cs = [low + (b + 0.5) * width for b in range(n)]
    sig = law(cs[i], r)
    ctx.eq(arr_total(res._data), e, "nothing is created or lost")
    for b in range(n):
        d = abs(b - i) * width
        if b != i and d >= 5 * sig + 0.51 * width:
            ctx.eq(res._data[b], 0., "nothing moves further than the window")
        elif b == i or d <= 5 * sig + 0.49 * width:
            g = lambda x: ctx.exp(-(x - cs[i]) ** 2 / (2 * sig ** 2))
            ctx.eq(res._data[b] * g(cs[i]), res._data[i] * g(cs[b]),
                   "contents spread in proportion to the resolution function")


@case("C15", quick=[dict()])
def unknown_dimension(ctx):
    for kind in ("ly_gauss", "res_gauss", "mm"):
        s = spectrum(ctx, geos_for((3,), 0, 1., 1.))
        old = state(ctx, s)
        sm, law = smearer(ctx, kind)
        sm.set_resolution(settings(kind)[0])
        ctx.refuses(sm.weighted_smear, s, "radial_mc", label="an unknown dimension is refused")
        ctx.refuses(sm.random_smear, s, "radial_mc", label="an unknown dimension is refused")
        same_state(ctx, s, old, "smearing leaves its input alone")


@case("C16", quick=[dict(kind="ly"), dict(kind="res"), dict(kind="mm")])
def laws(ctx, kind):
    sm, law = smearer(ctx, kind + ctx.choice("shape", ["_gauss", "_poisson"]))
    kind = kind[0]
    r = ctx.real("resolution", *{"m": (0.001, 300.), "r": (0.001, 0.999), "l": (1., 2000.)}[kind])
    sm.set_resolution(r)
    ctx.eq(sm.get_resolution(), r, "the resolution set is the one returned")
    if kind == "m":
        ctx.eq(sm.get_sigma(), r, "sigma is the radial resolution")
        sig = r
    else:
        e1 = ctx.real("e1", 0.001, 20)
        e2 = ctx.real("e2", 0.001, 20)
        s1, s2 = sm.get_sigma(e1), sm.get_sigma(e2)
        ctx.check(s1 > 0, "sigma is positive")
        if kind == "l":
            ctx.eq(s1 * s1 * r, e1, "sigma is the square root of energy over light yield")
        else:
            ctx.eq(s1 * s1, r * r * e1, "sigma is the resolution times the square root of the energy")
        if e1 < e2:
            ctx.check(s1 < s2, "sigma increases with energy")
        sig = s1
    num = ctx.real("sigmas", 0.1, 10)
    sm.set_num_sigma(num)
    m = ctx.real("mean", -10, 10)
    low, high = sm.get_bounds(m, sig)
    ctx.eq([low, high], [m - num * sig, m + num * sig], "the window is the set number of sigmas either side")


@case("C16", quick=[dict(kind="ly"), dict(kind="res"), dict(kind="mm")])
def invalid_settings(ctx, kind):
    sm, law = smearer(ctx, kind)
    good = ctx.real("good", *{"m": (0.001, 300.), "r": (0.001, 0.999), "l": (1., 2000.)}[kind[0]])
    sm.set_resolution(good)
    sm.set_num_sigma(3.)
    for k in range(2):
        v = ctx.real("value%d" % k, -500, 500)
        valid = v > 0
        if kind[0] == "r":
            valid = ctx.And(v > 0, v < 1)
        if valid:
            sm.set_resolution(v)
            good = v
        else:
            ctx.refuses(sm.set_resolution, v, label="an invalid resolution is refused")
        ctx.eq(sm.get_resolution(), good, "the last valid resolution stays in force")
        e = ctx.real("energy", 0.001, 20)
        if kind[0] == "m":
            ctx.eq(sm.get_sigma(), good, "the last valid resolution stays in force")
        elif kind[0] == "r":
            ctx.eq(sm.get_sigma(e) * sm.get_sigma(e), good * good * e, "the last valid resolution stays in force")
        else:
            ctx.eq(sm.get_sigma(e) * sm.get_sigma(e) * good, e, "the last valid resolution stays in force")
    u = ctx.real("window", -10, 10)
    if u <= 0:
        ctx.refuses(sm.set_num_sigma, u, label="a window that is not positive is refused")
        u = 3.
    else:
        sm.set_num_sigma(u)
    ctx.eq(sm.get_num_sigma(), u, "the last valid window stays in force")


@case("C16", quick=[dict(kind="ly"), dict(kind="res"), dict(kind="mm")])
def resmearing(ctx, kind):
    """What is needed to go from one resolution to a worse one: the variances add up."""
    sm, law = smearer(ctx, kind)
    lo, hi = {"m": (0.001, 300.), "r": (0.001, 0.999), "l": (1., 2000.)}[kind[0]]
    cur, new = ctx.real("current", lo, hi), ctx.real("new", lo, hi)
    explicit = ctx.choice("explicit", [True, False])
    if explicit:
        sm.set_resolution((lo + hi) / 2)
    else:
        sm.set_resolution(cur)
    args = (new, cur) if explicit else (new,)
    calc = sm.calc_smear_ly if kind[0] == "l" else sm.calc_smear_resoluton
    better = new > cur if kind[0] == "l" else new < cur
    if better:
        ctx.raises(ValueError, calc, *args, label="smearing to a better resolution is refused")
        return
    if kind[0] == "l":
        ctx.assume(new < cur)
        need = calc(*args)
        ctx.eq(1 / need + 1 / cur, 1 / new, "the variances add up to that of the new resolution")
    else:
        need = calc(*args)
        ctx.check(need >= 0, "the resolution needed is not negative")
        ctx.eq(need * need + cur * cur, new * new, "the variances add up to that of the new resolution")


@case("C16", quick=[dict(kind="ly"), dict(kind="res"), dict(kind="mm")])
def gaussian_density(ctx, kind):
    """The Gaussian of a smearer is the normal density, of integral one."""
    sm, law = smearer(ctx, kind + "_gauss")
    sigma = ctx.choice("sigma", [0.25, 1., 4.])
    mean = ctx.choice("mean", [-1., 0., 2.5])
    x = ctx.real("x", -10, 10)
    d = x - mean
    want = ctx.exp(d * d * (-1 / (2 * sigma ** 2))) * float(1 / (sigma * np.sqrt(2 * np.pi)))
    ctx.eq(sm.calc_gaussian(x, mean, sigma), want, "the gaussian is the normal density")


@case("C16", quick=[dict(kind=k) for k in KINDS])
def smears_with_setting(ctx, kind):
    """The resolution in force is the one a smeared spectrum shows."""
    sm, law = smearer(ctx, kind)
    low, width, n = 1., 0.25, 9
    i = 4
    data = np.zeros(n, dtype=object)
    data[i] = ctx.real("entries", 0.125, 100)
    s = spectrum(ctx, geos_for((n,), 0, low, width), data=ctx.arr(data))
    if kind != "mm":
        sets = {"l": [40.3, 13.1, 201.3], "r": [0.29, 0.11, 0.0703]}[kind[0]]
    else:
        sets = [0.4, 1.7, 0.1]
    first = ctx.choice("first", sets)
    r = ctx.choice("resolution", sets)
    sm.set_resolution(first)
    sm.weighted_smear(s, "energy_mc")
    sm.set_resolution(r)
    res = sm.weighted_smear(s, "energy_mc")
    c = low + (i + 0.5) * width
    sig = {"l": (c / r) ** 0.5, "r": r * c ** 0.5, "m": r}[kind[0]]
    for b in (i - 1, i + 1):
        x = low + (b + 0.5) * width
        ratio = weight(kind, x, c, sig, r) / weight(kind, c, c, sig, r)
        ctx.eq(res._data[b], res._data[i] * float(ratio), "smearing follows the resolution in force")


# -- C30 -------------------------------------------------------------------------------------------
class Draws(object):
    """numpy with random draws that are free variables (or their replayed values)."""

    def __init__(self, ctx, real):
        self.ctx, self.real, self.calls, self.random = ctx, real, [], self

    def __getattr__(self, n):
        return getattr(self.__dict__["real"], n)

    def seed(self, *a):
        pass

    def normal(self, loc=0.0, scale=1.0, size=None):
        assert size is None
        v = self.ctx.real("draw%d" % len(self.calls), -2, 8)
        self.calls.append(("normal", loc, scale, v))
        return v

    def poisson(self, lam=1.0, size=None):
        assert size is None
        v = self.ctx.int("draw%d" % len(self.calls), 0, 60)
        self.calls.append(("poisson", lam, None, v))
        return v


@case("C30", quick=[dict(shape=(3,), kind=k) for k in KINDS] + [dict(shape=(2, 2), kind=k) for k in KINDS],
      thorough=[dict(shape=(4,), kind=k, most=3) for k in KINDS], budget=90)
def random_events(ctx, shape, kind, most=2):
    """Every event of the input is drawn once, with the law of the smearer, and counted where it lands."""
    mod = ctx.load("echidna.core.smear")
    low, width = ctx.choice("geometry", [(1., 1.), (0., 0.5)])
    n = shape[0]
    counts = ctx.choice("contents", [[most] + [0] * (n - 1), [0] * (n - 1) + [1], [1] * n, [1.75] + [0.5] * (n - 1)])
    data = np.zeros(shape)
    for b in range(n):
        data[(b,) + ((b + 1) % 2,) * (len(shape) - 1)] = counts[b]
    counts = [int(c) for c in counts]                # the whole number of events
    s = spectrum(ctx, geos_for(shape, 0, low, width), data=ctx.arr(data), num_decays=5., raw=11)
    old = state(ctx, s)
    sm, law = smearer(ctx, kind)
    r = ctx.choice("resolution", {"l": [40., 4.], "r": [0.25, 0.5], "m": [0.4, 2.5]}[kind[0]])
    sm.set_resolution(r)
    draws = Draws(ctx, mod.numpy)
    mod.numpy = draws
    try:
        res = sm.random_smear(s, "energy_mc")
    finally:
        mod.numpy = draws.real
    same_frame(ctx, res, old, s, "a smeared spectrum keeps its binning")
    ctx.eq(res._raw_events, 11, "a smeared spectrum keeps its event counter")
    same_state(ctx, s, old, "smearing leaves its input alone")
    ctx.check(len(draws.calls) == sum(counts), "one draw per event")
    # draws may come in any order: match them to input bins by the centre they are drawn around
    ly = r if kind[0] == "l" else 1. / r ** 2
    want = np.zeros(shape, dtype=object)
    left = dict(((b,) + ((b + 1) % 2,) * (len(shape) - 1), counts[b]) for b in range(n) if counts[b])
    for what, loc, scale, v in draws.calls:
        found = None
        for i in left:
            c = low + (i[0] + 0.5) * width
            sig = {"l": (c / r) ** 0.5, "r": r * c ** 0.5, "m": r}[kind[0]]
            if what == "poisson":
                ok = kind.endswith("poisson") and close(loc, c * ly)
            else:
                ok = not kind.endswith("poisson") and close(loc, c) and close(scale, sig)
            if ok and left[i] > 0:
                found = i
                break
        if found is None:
            ctx.fail("draws follow the resolution at the centre of the bin", "%s(%s, %s)" % (what, loc, scale))
            return
        ctx.check(True, "draws follow the resolution at the centre of the bin")
        left[found] -= 1
        x = ctx.abs(v / ly if what == "poisson" else v)
        for b in range(n):
            if ctx.And(x >= low + b * width, x < low + (b + 1) * width):
                want[(b,) + found[1:]] = want[(b,) + found[1:]] + 1.
                break
    for i in indices(shape):
        ctx.eq(res._data[i], want[i], "every event is counted once, where it lands, or lost out of range")


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * max(1., abs(float(b)))


# -- C08 -------------------------------------------------------------------------------------------
@case("C08", quick=[dict(shape=(2,)), dict(shape=(2, 2))], thorough=[dict(shape=(3, 2))])
def convolved(ctx, shape):
    """What happens to the result of a convolution does not reach its input."""
    from checks.spectra import OPS, operate
    geos = geos_for(shape, 0, 1., 0.5)
    s = spectrum(ctx, geos, data=contents(ctx, shape, "positive"), raw=3)
    before = state(ctx, s)
    how = ctx.choice("how", ["shift_by_bin", "shift", "shift_none", "shift_out", "scale", "scale_none", "ly", "res", "mm"])
    if how.startswith("shift"):
        sh = ctx.load("echidna.core.shift").Shift()
        sh.set_shift(dict(shift_by_bin=0.5, shift=0.2, shift_none=0., shift_out=9.)[how])
        res = sh.shift(s, "energy_mc", k=1)
    elif how.startswith("scale"):
        sc = ctx.load("echidna.core.scale").Scale()
        sc.set_scale_factor(1.1 if how == "scale" else 1.)
        res = sc.scale(s, "energy_mc", k=1)
    else:
        sm, law = smearer(ctx, how + "_gauss")
        sm.set_resolution(settings(how)[1])
        res = sm.weighted_smear(s, "energy_mc")
    same_state(ctx, s, before, "a convolution leaves its input alone")
    op = ctx.choice("op", [o for o in OPS if how != "shift_out" or o not in ("scale", "cut", "roi")])
    if how != "shift_out":
        ctx.assume(arr_total(res._data) > 0.01)
    operate(ctx, res, op, geos)
    same_state(ctx, s, before, "the input is untouched by what happens to the result of a convolution")
