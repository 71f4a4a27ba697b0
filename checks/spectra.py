"""C01-C08: the histogram container."""
import copy
import itertools

import numpy as np

from engine.registry import case
from checks.common import (Geo, NAMES, arr_total, axis, geometry, indices, same_state, spectra_config, spectrum,
                           state, total)
from checks.convolve import geos_for, spline


def build(ctx, shape, sym=True, names=NAMES, **kw):
    geos = [axis(ctx, names[i], n, sym) for i, n in enumerate(shape)]
    return geos, spectrum(ctx, geos, **kw)


# -- C01 -------------------------------------------------------------------------------------------
@case("C01", quick=[dict(shape=(1,)), dict(shape=(3,)), dict(shape=(2, 2)), dict(shape=(2, 1, 2))],
      thorough=[dict(shape=(6,)), dict(shape=(3, 3)), dict(shape=(2, 2, 2))])
def fill(ctx, shape):
    geos, s = build(ctx, shape, num_decays=ctx.real("decays", 1))
    before = state(ctx, s)
    x = [ctx.real("x%d" % i, -500, 500) for i in range(len(shape))]
    kw = dict((g.name, v) for g, v in zip(geos, x))
    default = ctx.choice("default_weight", [False, True])
    w = 1.0 if default else ctx.real("weight")
    inside = True
    for g, v in zip(geos, x):
        # stay clear of edges by a hair: floats decide those by rounding
        if v >= g.low:
            if v < g.high:
                continue
        inside = False
        break
    if not inside:
        ctx.refuses(s.fill, weight=w, label="an event out of range is refused", **kw)
        same_state(ctx, s, before, "a refused event changes nothing")
        return
    if default:
        s.fill(**kw)
    else:
        s.fill(weight=w, **kw)
    for i in indices(shape):
        here = True
        for g, v, k in zip(geos, x, i):
            here = ctx.And(here, v >= g.edge(k), v < g.edge(k + 1))
        ctx.eq(s._data[i], before["data"][i] + ctx.ite(here, w, 0.),
               "the weight goes to the bin containing the event")
    same_state(ctx, s, before, "filling changes contents only", skip=("data", "raw"))


@case("C01", quick=[dict(shape=(2,)), dict(shape=(2, 2))])
def fill_arguments(ctx, shape):
    geos, s = build(ctx, shape, sym=False)
    before = state(ctx, s)
    kw = dict((g.name, ctx.real("x_" + g.name, 0, 2, hi_open=True)) for g in geos)
    how = ctx.choice("how", ["missing", "unknown", "replaced"])
    which = ctx.choice("which", [g.name for g in geos])
    v = kw[which]
    if how != "unknown":
        del kw[which]
    if how != "missing":
        kw["position_mc"] = v
    ctx.refuses(s.fill, label="missing or unknown coordinates are refused", **kw)
    same_state(ctx, s, before, "a refused event changes nothing")


@case("C01", quick=[dict(shape=(2,), n=3), dict(shape=(2, 2), n=2)], thorough=[dict(shape=(3,), n=3)])
def fill_sequence(ctx, shape, n):
    """Total contents = sum of the weights of the accepted events."""
    geos, s = build(ctx, shape, sym=False, data=None)
    s._data = ctx.arr(np.zeros(shape))
    tot = 0.
    for k in range(n):
        w = ctx.real("w%d" % k)
        try:
            s.fill(weight=w, **dict((g.name, ctx.real("x%d_%s" % (k, g.name), -1, 4)) for g in geos))
        except ValueError:
            continue
        tot = tot + w
    ctx.eq(s.sum(), tot, "sum() is the sum of the accepted weights")
    ctx.eq(arr_total(s._data), tot, "contents add up to the accepted weights")


# -- C02 -------------------------------------------------------------------------------------------
def marginal(data, keep):
    """Sum over the axes not in keep (kept axes in the spectrum's order)."""
    keep = sorted(keep)
    out = {}
    for i in indices(data.shape):
        k = tuple(i[a] for a in keep)
        out[k] = out.get(k, 0.) + data[i]
    return out


def compare(ctx, got, want, data, keep, label):
    shape = tuple(data.shape[a] for a in sorted(keep))
    ctx.check(tuple(np.shape(got)) == shape, label + " (shape)")
    if tuple(np.shape(got)) != shape:
        return
    for i in indices(shape):
        ctx.eq(got[i], want[i], label)


SH = [(3,), (2, 3), (2, 3, 4), (2, 2, 2), (2, 1, 3, 2), (2, 2, 2, 2)]


@case("C02", quick=[dict(shape=s) for s in SH])
def project(ctx, shape):
    geos, s = build(ctx, shape, sym=False)
    before = state(ctx, s)
    a = ctx.choice("axis", range(len(shape)))
    got = s.project(geos[a].name)
    compare(ctx, got, marginal(before["data"], [a]), before["data"], [a],
            "projection onto one dimension is the marginal")
    for k in range(shape[a]):           # the result is the caller's own
        got[k] = 0.
    same_state(ctx, s, before, "projecting changes nothing")


@case("C02", quick=[dict(shape=s) for s in SH])
def nd_project(ctx, shape):
    geos, s = build(ctx, shape, sym=False)
    before = state(ctx, s)
    subsets = [list(c) for n in range(1, len(shape) + 1) for c in itertools.combinations(range(len(shape)), n)]
    keep = ctx.choice("subset", subsets)
    got = s.nd_project([geos[a].name for a in keep])
    compare(ctx, got, marginal(before["data"], keep), before["data"], keep,
            "n-d projection is the marginal")
    # the result is the caller's own
    for i in indices(np.shape(got)):
        got[i] = 0.
    same_state(ctx, s, before, "projecting changes nothing")


@case("C02", quick=[dict(shape=s) for s in SH if len(s) > 1])
def surface(ctx, shape):
    geos, s = build(ctx, shape, sym=False)
    before = state(ctx, s)
    keep = ctx.choice("pair", [list(c) for c in itertools.combinations(range(len(shape)), 2)])
    got = s.surface(geos[keep[0]].name, geos[keep[1]].name)
    compare(ctx, got, marginal(before["data"], keep), before["data"], keep, "surface is the 2-d marginal")
    for i in indices(np.shape(got)):
        got[i] = 0.
    same_state(ctx, s, before, "projecting changes nothing")


@case("C02", quick=[dict(shape=(2, 3))])
def project_unknown(ctx, shape):
    geos, s = build(ctx, shape, sym=False)
    before = state(ctx, s)
    how = ctx.choice("how", [lambda: s.project("nothing_mc"), lambda: s.nd_project(["nothing_mc"]),
                             lambda: s.nd_project([geos[0].name, "nothing_mc"]),
                             lambda: s.surface(geos[0].name, "nothing_mc"),
                             lambda: s.surface("nothing_mc", geos[0].name)])
    ctx.refuses(how, label="an unknown dimension is refused")
    same_state(ctx, s, before, "projecting changes nothing")


@case("C02", quick=[dict(shape=(4,)), dict(shape=(4, 2)), dict(shape=(2, 5))])
def interpolation_nodes(ctx, shape):
    """The interpolation of a dimension passes through its projection at the bin centres."""
    geos, s = build(ctx, shape, sym=False)
    before = state(ctx, s)
    a = ctx.choice("axis", [i for i, n in enumerate(shape) if n > 3])
    f = s.interpolate1d(geos[a].name)
    want = marginal(before["data"], [a])
    for k in range(shape[a]):
        ctx.eq(f(geos[a].centre(k)), want[(k,)], "interpolation agrees with the projection at bin centres")
    same_state(ctx, s, before, "interpolating changes nothing")


@case("C02", quick=[dict(shape=(6,), k=None), dict(shape=(4, 2), k=None), dict(shape=(2, 6), k=2),
                   dict(shape=(4,), k=1), dict(shape=(6,), k=5)])
def interpolation_between(ctx, shape, k):
    """Between bin centres the interpolation is the spline of the requested degree (cubic by default)."""
    a = [i for i, n in enumerate(shape) if n > 3][0]
    geos = geos_for(shape, a, 0.5, 0.25)
    s = spectrum(ctx, geos)
    before = state(ctx, s)
    f = s.interpolate1d(geos[a].name) if k is None else s.interpolate1d(geos[a].name, k=k)
    want = marginal(before["data"], [a])
    g = spline(ctx, [geos[a].centre(b) for b in range(shape[a])], [want[(b,)] for b in range(shape[a])], k or 3)
    for b in range(shape[a] - 1):
        for part in (0.25, 0.5, 0.875):
            x = geos[a].centre(b + part)
            ctx.eq(f(x), g(x), "interpolation follows the spline of the requested degree")
    same_state(ctx, s, before, "interpolating changes nothing")


@case("C02", quick=[dict(shape=s) for s in SH[:4]])
def total_sum(ctx, shape):
    geos, s = build(ctx, shape, sym=False)
    ctx.eq(s.sum(), arr_total(s._data), "sum() is the total content")
    for g in geos:
        ctx.eq(arr_total(s.project(g.name)), arr_total(s._data), "projections preserve the total")


# -- C03 -------------------------------------------------------------------------------------------
@case("C03", quick=[dict(shape=(3,)), dict(shape=(2, 2))], thorough=[dict(shape=(4, 3, 2))])
def scale(ctx, shape):
    n0 = ctx.real("n0", 0, lo_open=True)
    n1 = ctx.real("n1", 0, lo_open=True)
    n2 = ctx.real("n2", 0, lo_open=True)
    geos, s = build(ctx, shape, sym=False, num_decays=n0, raw=7)
    old = state(ctx, s)
    t = s._data
    s.scale(n1)
    ctx.eq(s.get_num_decays(), n1, "records the new number of decays")
    for i in indices(shape):
        ctx.eq(s._data[i], old["data"][i] * n1 / n0, "every bin scales by the same factor")
        ctx.eq(t[i], old["data"][i], "arrays handed out before are untouched")
    s.scale(n2)
    ctx.eq(s.get_num_decays(), n2, "records the new number of decays")
    for i in indices(shape):
        ctx.eq(s._data[i], old["data"][i] * n2 / n0, "scaling twice equals scaling once")
    s.scale(n0)
    same_state(ctx, s, old, "scaling back restores the spectrum")


@case("C03", quick=[dict(shape=(2,))])
def scale_integer(ctx, shape):
    """Integer numbers of decays scale like the same float."""
    k0, k1 = ctx.choice("k0", [1, 3, 1000]), ctx.choice("k1", [1, 2, 7])
    geos, s = build(ctx, shape, sym=False, num_decays=k0)
    old = state(ctx, s)
    s.scale(k1)
    for i in indices(shape):
        ctx.eq(s._data[i], old["data"][i] * (float(k1) / float(k0)), "every bin scales by the same factor")
    ctx.check(isinstance(s.get_num_decays(), float), "the number of decays stays a float")
    ctx.eq(s.get_num_decays(), float(k1), "records the new number of decays")


@case("C03", quick=[dict(shape=(2,))])
def scale_zero(ctx, shape):
    """Scaling to zero decays empties the spectrum."""
    geos, s = build(ctx, shape, sym=False, num_decays=ctx.real("n0", 1))
    s.scale(0.)
    for i in indices(shape):
        ctx.eq(s._data[i], 0., "scaling to zero empties every bin")
    ctx.eq(s.get_num_decays(), 0., "records the new number of decays")


# -- C04 -------------------------------------------------------------------------------------------
def slices_of(ctx, s, geos, before):
    """Condition that each axis keeps bins [a, b) and the data are the matching block; yields the
    candidates (a per axis) to be or-ed."""
    new = geometry(s)
    shape = tuple(np.shape(s._data))
    old = before["data"]
    ctx.check(len(shape) == len(old.shape), "number of dimensions is kept")
    ctx.check(tuple(n[3] for n in new) == shape, "recorded bins agree with the data")
    ctx.check([n[0] for n in new] == [g.name for g in geos], "dimensions keep their names")
    if tuple(n[3] for n in new) != shape:
        return
    opts = []
    for a in itertools.product(*[range(0, o - n + 1) for o, n in zip(old.shape, shape)]):
        c = True
        for g, n, k in zip(geos, new, a):
            c = ctx.And(c, ctx.near(n[1], g.edge(k)), ctx.near(n[2], g.edge(k + n[3])))
        for i in indices(shape):
            c = ctx.And(c, ctx.near(s._data[i], old[tuple(x + y for x, y in zip(a, i))]))
        opts.append(c)
    ctx.check(ctx.Or(*opts) if opts else False, "the kept bins keep their contents and edges")


@case("C04", quick=[dict(shape=(1,), sym=True), dict(shape=(1,), sym="low"), dict(shape=(3,), sym="low"),
                   dict(shape=(2, 2), sym=False)],
      thorough=[dict(shape=(6,), sym="low"), dict(shape=(2, 1), sym="low"), dict(shape=(3, 2), sym=False),
                dict(shape=(2, 2, 2), sym=False)], budget=100)
def shrink(ctx, shape, sym):
    geos, s = build(ctx, shape, sym, num_decays=50., raw=3)
    before = state(ctx, s)
    kw, req = {}, []
    for g in geos:
        which = ctx.choice("limits_" + g.name, ["both", "low", "high", "none"] if len(shape) == 1 else
                           ["both", "none"])
        lo, hi = g.low, g.high
        if which in ("both", "low"):
            lo = ctx.real(g.name + "_L", -1000, 1000)
            # a hair outside may be taken for the edge itself
            ctx.assume(ctx.Or(lo >= g.low, lo <= g.low - 0.002 * (g.width + ctx.abs(g.low))))
            kw[g.name + "_low"] = lo
        if which in ("both", "high"):
            hi = ctx.real(g.name + "_H", -1000, 1000)
            ctx.assume(ctx.Or(hi <= g.high, hi >= g.high + 0.002 * (g.width + ctx.abs(g.high))))
            kw[g.name + "_high"] = hi
        req.append((lo, hi))
    bad, thin = False, False
    for g, (lo, hi) in zip(geos, req):
        if lo < g.low or hi > g.high or lo >= hi:
            bad = True
            break
        if hi - lo < 0.05 * g.width:
            thin = True
    if bad:
        ctx.refuses(s.shrink, label="an impossible request is refused", **kw)
        same_state(ctx, s, before, "a refused request changes nothing")
        return
    if thin:
        # less than a twentieth of a bin: may be refused, then without effect
        try:
            s.shrink(**kw)
        except (ValueError, IndexError):
            same_state(ctx, s, before, "a refused request changes nothing")
            return
        slices_of(ctx, s, geos, before)
        return
    s.shrink(**kw)
    slices_of(ctx, s, geos, before)
    for g, (lo, hi), n in zip(geos, req, geometry(s)):
        tol = 0.0125 * g.width
        ctx.check(ctx.And(n[1] > lo - g.width - 1e-9, n[1] <= lo + tol),
                  "the first kept bin contains the requested low limit")
        ctx.check(ctx.And(n[2] >= hi - tol, n[2] < hi + g.width + 1e-9),
                  "the last kept bin contains the requested high limit")
    same_state(ctx, s, before, "shrinking leaves counters alone", skip=("data", "geo"))


@case("C04", quick=[dict(bins=4, sym=True)], thorough=[dict(bins=8, sym=True)])
def shrink_on_edges(ctx, bins, sym):
    """Requests exactly on bin edges keep exactly the bins between them."""
    geos, s = build(ctx, (bins, 2), sym)
    before = state(ctx, s)
    a = ctx.choice("a", range(bins))
    b = ctx.choice("b", range(1, bins + 1))
    if a >= b:
        ctx.refuses(s.shrink, label="low >= high is refused",
                    **{geos[0].name + "_low": geos[0].edge(a), geos[0].name + "_high": geos[0].edge(b)})
        same_state(ctx, s, before, "a refused request changes nothing")
        return
    s.shrink(**{geos[0].name + "_low": geos[0].edge(a), geos[0].name + "_high": geos[0].edge(b)})
    new = geometry(s)
    ctx.eq(new[0], (geos[0].name, geos[0].edge(a), geos[0].edge(b), b - a), "the dimension covers the request")
    ctx.eq(new[1], before["geo"][1], "other dimensions are untouched")
    ctx.eq(s._data, before["data"][a:b], "exactly the requested bins are kept")


DECIMAL = [(0., 1., 10), (-0.3, 0.4, 7), (2.4, 2.6, 8), (0.1, 1.1, 10), (0., 0.7, 7)]
LONG = [(0., 3., 30), (0.5, 2.5, 20), (-1., 1., 20), (0., 10., 100)]


@case("C04", quick=[dict(axis=a) for a in DECIMAL], thorough=[dict(axis=a) for a in LONG], budget=60)
def shrink_decimal(ctx, axis):
    """Edges typed as decimal numbers are edges, although their quotient by the bin width rounds either way."""
    low, high, bins = axis
    g = Geo("energy_mc", low, (high - low) / bins, bins)
    g.high = high
    s = spectrum(ctx, [g, Geo("time_mc", 0., 1., 2)], lo=0, hi=100)
    data = ctx.snapshot(s._data)
    step = 1 if bins <= 10 else max(1, bins // 12)
    a = ctx.choice("a", range(0, bins, step))
    b = ctx.choice("b", range(a + 1, bins + 1, step))
    edge = lambda k: round(low + k * (high - low) / bins, 6)
    s.shrink(energy_mc_low=edge(a), energy_mc_high=edge(b))
    label = "decimal edges keep exactly the bins between them"
    ctx.check(s._data.shape == (b - a, 2), label)
    if s._data.shape == (b - a, 2):
        ctx.eq(s._data, data[a:b], label)
    new = geometry(s)[0]
    ctx.check(new[3] == b - a, label)
    ctx.check(ctx.And(abs(new[1] - edge(a)) < 1e-9, abs(new[2] - edge(b)) < 1e-9), label)


@case("C04", quick=[dict(name="energy_low_mc"), dict(name="high_reco"), dict(name="time_high_low_mc"), dict(name="x")])
def shrink_names(ctx, name):
    """Only the last part of an argument says which limit it is, whatever the dimension is called."""
    geos = [Geo("radial_mc", 0., 1., 2), Geo(name, 1., 0.5, 4)]
    s = spectrum(ctx, geos)
    before = state(ctx, s)
    a = ctx.choice("a", range(3))
    b = ctx.choice("b", range(a + 1, 5))
    s.shrink(**{name + "_low": geos[1].edge(a), name + "_high": geos[1].edge(b)})
    new = geometry(s)
    ctx.eq(new[1], (name, geos[1].edge(a), geos[1].edge(b), b - a), "the dimension covers the request")
    ctx.eq(new[0], before["geo"][0], "other dimensions are untouched")
    ctx.eq(s._data, before["data"][:, a:b], "exactly the requested bins are kept")


@case("C04", quick=[dict(shape=(3, 2))])
def shrink_arguments(ctx, shape):
    geos, s = build(ctx, shape, sym=False)
    before = state(ctx, s)
    good = {geos[0].name + "_low": 1., geos[0].name + "_high": 2.}
    bad = ctx.choice("bad", ["nothing_mc_low", "nothing_mc_high", "radial_mc_mid", "radial_low", "energy_high",
                             "low", "radial_mc"])
    good[bad] = ctx.real("v", 0, 2)
    ctx.refuses(s.shrink, label="an unknown dimension or limit is refused", **good)
    same_state(ctx, s, before, "a refused request changes nothing")


# -- C05 -------------------------------------------------------------------------------------------
@case("C05", quick=[dict(shape=(4,)), dict(shape=(3, 2))], thorough=[dict(shape=(6, 2)), dict(shape=(2, 2, 3))])
def cut(ctx, shape):
    n0 = ctx.real("n0", 1)
    geos, s = build(ctx, shape, sym=False, num_decays=n0, lo=0, raw=5)
    twin = spectrum(ctx, geos, data=ctx.snapshot(s._data), num_decays=n0, raw=5)
    before = state(ctx, s)
    all_ = arr_total(before["data"])
    ctx.assume(all_ > 0.01)
    L, H = ctx.real("L", 0), ctx.real("H", 0, shape[0])
    ctx.assume(L + 0.1 <= H)
    how = ctx.choice("how", ["both", "low", "high"])
    kw = {}
    if how != "high":
        kw[geos[0].name + "_low"] = L
    if how != "low":
        kw[geos[0].name + "_high"] = H
    s.cut(**dict(kw))
    twin.shrink(**dict(kw))
    ctx.eq(geometry(s), geometry(twin), "cut keeps the bins shrink keeps")
    ctx.eq(s._data, twin._data, "cut keeps the contents shrink keeps")
    ctx.eq(s._num_decays, n0 * (arr_total(twin._data) / all_), "number of decays drops by the kept fraction")
    ctx.eq(twin._num_decays, n0, "shrink leaves the number of decays alone")
    ctx.eq(s._raw_events, 5, "raw events are untouched")


@case("C05", quick=[dict(shape=(4,)), dict(shape=(2, 4))], thorough=[dict(shape=(3, 6)), dict(shape=(2, 2, 4))])
def roi(ctx, shape):
    n0 = ctx.real("n0", 1)
    geos, s = build(ctx, shape, sym=False, num_decays=n0, lo=0, raw=5)
    twin = spectrum(ctx, geos, data=ctx.snapshot(s._data), num_decays=n0, raw=5)
    all_ = arr_total(s._data)
    ctx.assume(all_ > 0.01)
    k = len(shape) - 1
    dim = geos[k].name
    L, H = ctx.real("L", 0), ctx.real("H", 0, shape[k])
    ctx.assume(L + 0.1 <= H)
    s.shrink_to_roi(L, H, dim)
    twin.shrink(**{dim + "_low": L, dim + "_high": H})
    ctx.eq(geometry(s), geometry(twin), "ROI keeps the bins shrink keeps")
    ctx.eq(s._data, twin._data, "ROI keeps the contents shrink keeps")
    ctx.eq(s._num_decays, n0, "ROI leaves the number of decays alone")
    r = s.get_roi(dim)
    ctx.eq(r["efficiency"], arr_total(twin._data) / all_, "efficiency is the kept fraction")
    ctx.eq(r["low"], geometry(twin)[k][1], "ROI records its lower limit")
    ctx.eq(r["high"], geometry(twin)[k][2], "ROI records its upper limit")
    if len(shape) > 1:
        ctx.refuses(s.get_roi, geos[0].name, label="no ROI is reported for another dimension")


@case("C05", quick=[dict(shape=(4,), again=True), dict(shape=(2, 3), again=True), dict(shape=(2, 3), again=False)],
      thorough=[dict(shape=(5,), again=True), dict(shape=(2, 4), again=True)])
def roi_twice(ctx, shape, again):
    """A second region, in the same dimension (again) or another: what is reported of it is its own."""
    geos, s = build(ctx, shape, sym=False, num_decays=ctx.real("n0", 1), lo=0.5, raw=5)
    k, j = len(shape) - 1, len(shape) - 1 if again else 0
    twin = spectrum(ctx, geos, data=ctx.snapshot(s._data), raw=5)
    b1 = ctx.choice("first", [(0, shape[k]), (1, shape[k]), (0, shape[k] - 1)])
    first = [geos[k].edge(b1[0]), geos[k].edge(b1[1])]
    s.shrink_to_roi(first[0], first[1], geos[k].name)
    twin.shrink(**{geos[k].name + "_low": first[0], geos[k].name + "_high": first[1]})
    if ctx.choice("asked", [True, False]):
        s.get_roi(geos[k].name)
    before = arr_total(twin._data)
    g = geometry(twin)[j]
    n = g[3]
    b2 = ctx.choice("second", sorted(set([(0, n), (1, n), (0, n - 1), (n - 1, n)])))
    if b2[0] >= b2[1]:
        return
    w = geos[j].width
    L, H = g[1] + b2[0] * w, g[1] + b2[1] * w
    s.shrink_to_roi(L, H, geos[j].name)
    twin.shrink(**{geos[j].name + "_low": L, geos[j].name + "_high": H})
    ctx.eq(geometry(s), geometry(twin), "ROI keeps the bins shrink keeps")
    ctx.eq(s._data, twin._data, "ROI keeps the contents shrink keeps")
    r = s.get_roi(geos[j].name)
    ctx.eq(r["efficiency"], arr_total(twin._data) / before, "efficiency is the kept fraction")
    ctx.eq([r["low"], r["high"]], [L, H], "ROI records its limits")


# -- C06 -------------------------------------------------------------------------------------------
@case("C06", quick=[dict(shape=(3,)), dict(shape=(2, 2))], thorough=[dict(shape=(3, 2, 2))])
def add(ctx, shape):
    types = ctx.choice("types", [NAMES, ["energy_reco", "radial_mc", "time_mc"],
                                 ["energy_reco", "radial_truth", "time_mc"]])
    geos = [axis(ctx, NAMES[i], n) for i, n in enumerate(shape)]
    a = spectrum(ctx, geos, prefix="a", num_decays=ctx.real("na", 1), raw=ctx.int("ra", 0, 1000))
    ogeos = [Geo(types[i], g.low, g.width, g.bins) for i, g in enumerate(geos)]
    b = spectrum(ctx, ogeos, prefix="b", num_decays=ctx.real("nb", 1), raw=ctx.int("rb", 0, 1000))
    sa, sb = state(ctx, a), state(ctx, b)
    a.add(b)
    for i in indices(shape):
        ctx.eq(a._data[i], sa["data"][i] + sb["data"][i], "contents add bin by bin")
    ctx.eq(a._num_decays, sa["decays"] + sb["decays"], "numbers of decays add")
    ctx.eq(a._raw_events, sa["raw"] + sb["raw"], "raw events add")
    same_state(ctx, a, sa, "adding keeps the binning", skip=("data", "decays", "raw"))
    same_state(ctx, b, sb, "the added spectrum is untouched")


# the same edges, reached by different arithmetic
ROUNDED = [(0., 0.3, 0.1 * 3), (0.3, 0.7, 0.7), (0.1 + 0.2, 0.7, 0.1 * 7), (2.4, 2.6, 2.4 + 0.2), (0.1 + 0.7, 1.1, 1.1)]


@case("C06", quick=[dict(reco=r) for r in (False, True)])
def add_rounded(ctx, reco):
    """Bounds that differ only by the rounding of their calculation are the same bounds."""
    low, high, other = ctx.choice("axis", ROUNDED)
    pair = []
    for n, lo, hi in (("a", low, high), ("b", round(low, 6), other)):
        g = Geo("energy_mc" if n == "a" or not reco else "energy_reco", lo, (hi - lo) / 2, 2)
        g.high = hi
        pair.append(spectrum(ctx, [Geo("time_mc", 0., 1., 1), g], prefix=n, raw=1))
    a, b = pair[::ctx.choice("swap", [1, -1])]
    sa, sb = state(ctx, a), state(ctx, b)
    a.add(b)
    for i in indices(a._data.shape):
        ctx.eq(a._data[i], sa["data"][i] + sb["data"][i], "contents add bin by bin")
    same_state(ctx, a, sa, "adding keeps the binning", skip=("data", "decays", "raw"))
    same_state(ctx, b, sb, "the added spectrum is untouched")


@case("C06", quick=[dict(k=0), dict(k=1)])
def add_refused(ctx, k):
    shape = (2, 2)
    geos = [axis(ctx, NAMES[i], n) for i, n in enumerate(shape)]
    a = spectrum(ctx, geos, prefix="a", raw=4)
    how = ctx.choice("how", ["low", "high", "bins", "name", "extra", "fewer"])
    og = [Geo(g.name, g.low, g.width, g.bins) for g in geos]
    if ctx.choice("type", ["same", "other"]) == "other":
        og[k].name = og[k].name.replace("_mc", "_reco")     # same quantity of another type
    gap = ctx.real("gap", 0.25, 20)
    up = ctx.choice("up", [False, True])
    if how == "low":
        # other low edge, same high edge and bins
        og[k].low = og[k].low - gap if up else og[k].low + og[k].width * 0.5
    elif how == "high":
        og[k].high = og[k].high + gap if up else og[k].high - og[k].width * 0.5
    elif how == "bins":
        og[k].bins = 1 if up else 4
    elif how == "name":
        og[k].name = "zenith_mc"
    elif how == "extra":
        og.append(axis(ctx, "time_mc", 1))
    elif how == "fewer":
        og.pop(k)
    b = spectrum(ctx, og, prefix="b", raw=2)
    sa, sb = state(ctx, a), state(ctx, b)
    ctx.refuses(a.add, b, label="incompatible spectra are refused")
    same_state(ctx, a, sa, "a refused addition changes nothing")
    same_state(ctx, b, sb, "the added spectrum is untouched")


@case("C06", quick=[dict(shape=(2, 2)), dict(shape=(1, 1, 1)), dict(shape=(2, 3))])
def add_other_order(ctx, shape):
    """Dimensions in another order: refused, or added dimension by dimension."""
    geos = [axis(ctx, NAMES[i], n) for i, n in enumerate(shape)]
    a = spectrum(ctx, geos, prefix="a", raw=4)
    perm = ctx.choice("perm", [p for p in itertools.permutations(range(len(shape)))][1:])
    b = spectrum(ctx, [geos[p] for p in perm], prefix="b", raw=2)
    sa, sb = state(ctx, a), state(ctx, b)
    try:
        a.add(b)
    except (ValueError, IndexError):
        same_state(ctx, a, sa, "a refused addition changes nothing")
        ctx.check(True, "refused")
        return
    for i in indices(shape):
        ctx.eq(a._data[i], sa["data"][i] + sb["data"][tuple(i[p] for p in perm)],
               "contents add dimension by dimension")


# -- C07 -------------------------------------------------------------------------------------------
@case("C07", quick=[dict(shape=(6,)), dict(shape=(4, 2)), dict(shape=(2, 4)), dict(shape=(2, 2, 4)),
                    dict(shape=(2, 2, 2, 2))], thorough=[dict(shape=(12,)), dict(shape=(6, 4))])
def rebin(ctx, shape):
    geos = [axis(ctx, NAMES[i], n) for i, n in enumerate(shape)]
    s = spectrum(ctx, geos, raw=3)
    before = state(ctx, s)
    new = tuple(ctx.choice("new%d" % i, [d for d in range(1, n + 1) if n % d == 0]) for i, n in enumerate(shape))
    s.rebin(ctx.choice("given as", [tuple, list, np.array] if len(shape) == 1 else [tuple])(new))
    ctx.check(tuple(np.shape(s._data)) == new, "the data have the new binning")
    ctx.eq([g[3] for g in geometry(s)], list(new), "the dimensions record the new binning")
    ctx.eq([g[:3] for g in geometry(s)], [g[:3] for g in before["geo"]], "ranges stay the same")
    f = [n // m for n, m in zip(shape, new)]
    want = {}
    for i in indices(shape):
        k = tuple(x // y for x, y in zip(i, f))
        want[k] = want.get(k, 0.) + before["data"][i]
    if tuple(np.shape(s._data)) == new:
        for k in indices(new):
            ctx.eq(s._data[k], want[k], "each new bin is the sum of the bins it covers")
    same_state(ctx, s, before, "rebinning keeps the counters", skip=("data", "geo"))


@case("C07", quick=[dict(shape=(4,)), dict(shape=(4, 6)), dict(shape=(2, 2, 3))])
def rebin_refused(ctx, shape):
    geos = [axis(ctx, NAMES[i], n) for i, n in enumerate(shape)]
    s = spectrum(ctx, geos, raw=3)
    before = state(ctx, s)
    how = ctx.choice("how", ["short", "long", "indivisible", "odd"])
    if how == "odd":                                # no number of bins at all
        new = [1] * len(shape)
        k = ctx.choice("k", range(len(shape)))
        new[k] = ctx.choice("to", [0, -1, -shape[k], 0.5, shape[k] / 4., float("nan"), "1", None])
        ctx.assume(new[k] != int(new[k]) or new[k] < 1 if isinstance(new[k], float) and new[k] == new[k] else True)
        new = tuple(new)
    elif how == "short":
        new = tuple(1 for n in shape[:-1])
    elif how == "long":
        new = tuple(1 for n in shape) + (1,)
    else:
        new = [1] * len(shape)
        k = ctx.choice("k", range(len(shape)))
        new[k] = ctx.choice("to", [d for d in range(2, 14) if shape[k] % d])
        new = tuple(new)
    ctx.refuses(s.rebin, new, label="an impossible binning is refused")
    same_state(ctx, s, before, "a refused rebinning changes nothing")


# -- C08 -------------------------------------------------------------------------------------------
OPS = ["fill", "scale", "shrink", "cut", "rebin", "add", "roi"]


def operate(ctx, s, op, geos):
    if op == "fill":
        s.fill(weight=ctx.real("w"), **dict((g.name, g.low + 0.5 * g.width) for g in geos))
    elif op == "scale":
        s.scale(ctx.real("n1", 1))
    elif op == "shrink":
        s.shrink(**{geos[0].name + "_low": geos[0].edge(1)})
    elif op == "cut":
        s.cut(**{geos[0].name + "_high": geos[0].edge(1)})
    elif op == "rebin":
        s.rebin(tuple([1] * len(geos)))
    elif op == "add":
        s.add(spectrum(ctx, [type(g)(*[getattr(g, k) for k in ("name", "low", "width", "bins")]) for g in geos],
                       prefix="o", name="other"))
    elif op == "roi":
        s.shrink_to_roi(geos[0].edge(0), geos[0].edge(1), geos[0].name)


@case("C08", quick=[dict(shape=(2,)), dict(shape=(2, 2))], thorough=[dict(shape=(3, 2))])
def copies(ctx, shape):
    geos = [axis(ctx, NAMES[i], n) for i, n in enumerate(shape)]
    s = spectrum(ctx, geos, lo=0, raw=3)
    ctx.assume(arr_total(s._data) > 0.01)
    s._rois["energy_mc"] = {"low": 0., "high": 1., "efficiency": 0.5}
    before = state(ctx, s)
    c = ctx.choice("how", [copy.copy, copy.deepcopy])(s)
    same_state(ctx, c, before, "a copy equals the original")
    for op in ctx.choice("ops", [[o] for o in OPS] + [["shrink", "fill"], ["scale", "add"], ["rebin", "scale"]]):
        operate(ctx, c, op, [type(geos[0])(g.name, n[1], g.width if n[3] > 1 else (n[2] - n[1]), n[3])
                             for g, n in zip(geos, geometry(c))])
    same_state(ctx, s, before, "the original is untouched by what happens to the copy")


@case("C08", quick=[dict(shape=(2,)), dict(shape=(2, 2))], thorough=[dict(shape=(3, 2))])
def same_config(ctx, shape):
    """Spectra made with one configuration object are independent of each other."""
    module = ctx.load("echidna.core.spectra")
    geos = [axis(ctx, NAMES[i], n) for i, n in enumerate(shape)]
    config = spectra_config(ctx, geos)
    pair = []
    for k in range(2):
        s = module.Spectra("spec%d" % k, 100., config)
        s._data = ctx.reals("d%d" % k, shape, 0)
        s._raw_events = 3
        ctx.assume(arr_total(s._data) > 0.01)
        pair.append(s)
    done, other = pair if ctx.choice("first", [True, False]) else pair[::-1]
    before = state(ctx, other)
    for op in ctx.choice("ops", [[o] for o in OPS] + [["shrink", "fill"], ["rebin", "scale"]]):
        operate(ctx, done, op, [type(geos[0])(g.name, n[1], g.width if n[3] > 1 else (n[2] - n[1]), n[3])
                                for g, n in zip(geos, geometry(done))])
    same_state(ctx, other, before, "a spectrum is untouched by what happens to another with the same configuration")
    third = module.Spectra("spec2", 100., config)
    ctx.eq(geometry(third), before["geo"], "a configuration still gives the binning it was made with")
    # and the spectrum which was left alone still works in its own binning
    w = ctx.real("weight", 0, 10)
    other.fill(weight=w, **dict((g.name, g.low + (g.bins - 0.5) * g.width) for g in geos))
    last = tuple(n - 1 for n in shape)
    if tuple(np.shape(other._data)) == tuple(shape):
        ctx.eq(other._data[last], before["data"][last] + w, "filling it still counts in its own bins")
