"""C09-C12: dimensions, fit parameters and configurations."""
import io
from collections import OrderedDict

import warnings

import numpy as np

from engine.registry import case

ANY = (Exception,)


# -- C09 -------------------------------------------------------------------------------------------
def spectra_par(ctx, bins, name="energy_mc"):
    p = ctx.load("echidna.core.parameter")
    low = ctx.real("low", -100, 100)
    width = ctx.real("width", 0.01, 100)
    return p.SpectraParameter(name, low, low + bins * width, bins), low, width


@case("C09", quick=[dict(bins=n) for n in (1, 2, 3, 5)], thorough=[dict(bins=n) for n in (4, 8, 13, 40)])
def geometry(ctx, bins):
    par, low, width = spectra_par(ctx, bins)
    ctx.eq(par.get_width(), width, "the width is (high - low) / bins")
    ctx.check(par.get_bins() == bins, "the number of bins is the one given")
    ctx.eq(par.get_low(), low, "the lower limit is the one given")
    ctx.eq(par.get_high(), low + bins * width, "the upper limit is the one given")
    e = par.get_bin_boundaries()
    ctx.check(len(e) == bins + 1, "there is one more edge than bins")
    for i in range(bins + 1):
        ctx.eq(e[i], low + i * width, "edges are equally spaced from low to high")
    c = par.get_bin_centres()
    ctx.check(len(c) == bins, "there are as many centres as bins")
    for i in range(bins):
        ctx.eq(c[i], (e[i] + e[i + 1]) / 2, "centres lie half-way between consecutive edges")
        ctx.eq(par.get_bin_centre(i), (e[i] + e[i + 1]) / 2, "the centre of a bin lies half-way between its edges")
        ctx.check(par.get_bin(par.get_bin_centre(i)) == i, "the bin of a bin centre is that bin")
    for bad in (-1, bins, bins + 3):
        ctx.refuses(par.get_bin_centre, bad, label="the centre of a bin that does not exist is refused")
    ctx.refuses(par.get_bin_centre, 0.5, label="the centre of a bin that does not exist is refused")
    ctx.eq([par._low, par._high, par._bins], [low, low + bins * width, bins], "asking changes nothing")


@case("C09", quick=[dict(bins=n) for n in (1, 2, 3, 5)], thorough=[dict(bins=n) for n in (4, 8, 13)])
def lookup(ctx, bins):
    par, low, width = spectra_par(ctx, bins)
    x = ctx.real("x", -2000, 2000)
    if x < low:
        ctx.refuses(par.get_bin, x, label="values out of range are refused")
        return
    if x > low + bins * width:
        ctx.refuses(par.get_bin, x, label="values out of range are refused")
        return
    if x >= low + bins * width:
        return                      # exactly high: not specified
    b = par.get_bin(x)
    ctx.check(ctx.And(low + b * width <= x, x < low + (b + 1) * width),
              "the bin of a value is the one whose edges contain it")
    ctx.check(ctx.And(0 <= b, b < bins), "the bin of a value in range exists")


@case("C09", quick=[dict(bins=n) for n in (1, 2, 3, 5)], thorough=[dict(bins=n) for n in (4, 8, 13)])
def rounding(ctx, bins):
    par, low, width = spectra_par(ctx, bins)
    x = ctx.real("x", -2000, 2000)
    ctx.assume(x >= low)
    ctx.assume(x <= low + bins * width)
    r = par.round(x)
    ctx.check(ctx.Or(*[ctx.near(r, low + i * width) for i in range(bins + 1)]), "rounding gives an edge")
    ctx.check(ctx.abs(r - x) <= width / 2 + 1e-9, "rounding gives the nearest edge")


@case("C09", quick=[dict(bins=3)])
def change(ctx, bins):
    par, low, width = spectra_par(ctx, bins)
    l2, h2 = ctx.real("low2", -200, 200), ctx.real("high2", 300, 500)
    b2 = ctx.choice("bins2", [1, 2, 4, 7])
    which = ctx.choice("which", [("low",), ("high",), ("bins",), ("low", "high"), ("low", "high", "bins"),
                                 ("bins", "low")])
    new = dict(low=l2, high=h2, bins=b2)
    want = dict(low=low, high=low + bins * width, bins=bins)
    if "high" not in which:
        ctx.assume(l2 < want["high"] - 1)
    if ctx.choice("asked before", [True, False]):      # an answer given before the change is no longer valid
        par.get_width(), par.get_bin(low), par.get_bin_centre(0), par.get_bin_centres(), par.get_bin_boundaries()
        par.round(low)
    one_by_one = ctx.choice("one by one", [True, False])
    for k in which:
        want[k] = new[k]
        if one_by_one:
            if k == "low" and new[k] >= par.get_high():
                return
            par.set_par(**{k: new[k]})
            ctx.eq(par.get_width(), (want["high"] - want["low"]) / want["bins"], "the width follows a changed setting")
    if not one_by_one:
        par.set_par(**dict((k, new[k]) for k in which))
    n = want["bins"]
    w = (want["high"] - want["low"]) / n
    ctx.eq([par.get_low(), par.get_high(), par.get_bins()], [want["low"], want["high"], n],
           "a changed setting is the one reported")
    ctx.eq(par.get_width(), w, "the width follows a changed setting")
    for i in range(n):
        ctx.eq(par.get_bin_centre(i), want["low"] + (i + 0.5) * w, "the centres follow a changed setting")
        ctx.eq(par.get_bin_boundaries()[i + 1], want["low"] + (i + 1) * w, "the edges follow a changed setting")
        ctx.eq(par.get_bin(want["low"] + (i + 0.5) * w), i, "the bin of a value follows a changed setting")
    ctx.raises(TypeError, par.set_par, label="an unknown setting is refused", sigma=1.)


@case("C09", quick=[dict()])
def refused_setting(ctx):
    """Settings that are refused, together with others that are fine, change none of them."""
    parameter = ctx.load("echidna.core.parameter")
    par = parameter.SpectraParameter("energy_mc", ctx.real("low", -5, 0), ctx.real("high", 1, 5), 4)
    before = (par.get_low(), par.get_high(), par.get_bins(), par.get_width())
    kw = refused_kwargs(ctx)
    ctx.refuses(par.set_par, label="an unknown or impossible setting is refused", **kw)
    ctx.eq((par.get_low(), par.get_high(), par.get_bins(), par.get_width()), before, "a refused setting changes nothing")


def refused_kwargs(ctx):
    good = [("low", ctx.real("new_low", -10, -6)), ("high", ctx.real("new_high", 6, 10)), ("bins", 7)]
    bad = ctx.choice("bad", [("colour", 1.), ("low", "a"), ("high", None), ("bins", "many"), ("bins", None)])
    good = [g for g in good if g[0] != bad[0]]
    return dict(good + [bad] if ctx.choice("last", [True, False]) else [bad] + good)


# -- C10 -------------------------------------------------------------------------------------------
def fit_par(ctx, kind, low, high, bins, prior, sigma=1., name=None, **kw):
    p = ctx.load("echidna.core.parameter")
    if kind == "rate":
        return p.RateParameter(name or "rate", prior, sigma, low, high, bins, **kw)
    cls = dict(resolution=p.ResolutionParameter, shift=p.ShiftParameter, scale=p.ScaleParameter)[kind]
    return cls(name or "energy_mc_" + kind, prior, sigma, low, high, bins, dimension="energy_mc", **kw)


def values_of(par):
    return list(np.asarray(par.get_values()).ravel())


KINDS = ["rate", "resolution", "shift", "scale"]


@case("C10", quick=[dict(bins=n) for n in (2, 3, 5)], thorough=[dict(bins=n) for n in (4, 8, 21)])
def linear(ctx, bins):
    low, step = ctx.real("low", -100, 100), ctx.real("step", 1e-7, 100)
    high = low + (bins - 1) * step
    par = fit_par(ctx, ctx.choice("kind", KINDS), low, high, bins, low)
    v = values_of(par)
    ctx.check(len(v) == bins, "there are exactly bins values")
    for i in range(bins):
        ctx.eq(v[i], low + i * step, "values are equally spaced from low to high")
        ctx.eq(par.get_value_at(i), low + i * step, "the value at an index is that of the grid")
        ctx.check(par.get_value_index(par.get_value_at(i)) == i, "the index of the value at an index is that index")
    ctx.eq(values_of(par), v, "asking again gives the same values")


@case("C10", quick=[dict(bins=n) for n in (2, 3, 4)], thorough=[dict(bins=n) for n in (5, 8)])
def logarithmic(ctx, bins):
    low, high = ctx.real("low", 0.01, 100), ctx.real("high", 0.01, 10000)
    ctx.assume(high > low * 1.01)
    par = fit_par(ctx, ctx.choice("kind", KINDS), low, high, bins, low, logscale=True)
    v = values_of(par)
    ctx.check(len(v) == bins, "there are exactly bins values")
    ctx.eq(v[0], low, "values start at low")
    ctx.eq(v[-1], high, "values end at high")
    for i in range(bins - 1):
        ctx.eq(ctx.log(v[i + 1]) - ctx.log(v[i]), (ctx.log(high) - ctx.log(low)) / (bins - 1),
               "logarithmic values are equally spaced in the logarithm")


@case("C10", quick=[dict(bins=n) for n in (3, 4, 5)], thorough=[dict(bins=n) for n in (6, 7, 9)], budget=100)
def deviation(ctx, bins):
    prior = ctx.real("prior", -100, 100)
    where = ctx.choice("prior_at", ["inside", "low", "high"])
    dlow = 0. if where == "low" else ctx.real("below", 0.01, 100)
    dhigh = 0. if where == "high" else ctx.real("above", 0.01, 100)
    par = fit_par(ctx, ctx.choice("kind", ["shift", "rate"]), prior - dlow, prior + dhigh, bins, prior, logscale_deviation=True)
    v = values_of(par)
    ctx.check(len(v) == bins, "there are exactly bins values")
    ctx.eq(v[0], prior - dlow, "values start at low")
    ctx.eq(v[-1], prior + dhigh, "values end at high")
    at = [i for i in range(len(v)) if decided_equal(ctx, v[i], prior)]
    ctx.check(len(at) == 1, "the grid contains the prior exactly once")
    if len(at) != 1:
        return
    k = at[0]
    for i in range(k):
        ctx.eq(v[i], prior + 1. - ctx.exp(ctx.log(dlow + 1.) * (k - i) / k),
               "deviations are equally spaced in their logarithm")
    for i in range(k + 1, len(v)):
        ctx.eq(v[i], prior - 1. + ctx.exp(ctx.log(dhigh + 1.) * (i - k) / (len(v) - 1 - k)),
               "deviations are equally spaced in their logarithm")


def decided_equal(ctx, a, b):
    """a == b, forking when undecided."""
    if ctx.sym:
        return bool(a == b)
    return abs(a - b) < 1e-9


@case("C10", quick=[dict(bins=n) for n in (3, 5)], thorough=[dict(bins=n) for n in (7, 9)])
def deviation_symmetric(ctx, bins):
    prior, d = ctx.real("prior", -100, 100), ctx.real("delta", 0.01, 100)
    par = fit_par(ctx, "scale", prior - d, prior + d, bins, prior, logscale_deviation=True)
    v = values_of(par)
    ctx.check(len(v) == bins, "there are exactly bins values")
    for i in range(bins):
        ctx.eq(v[i] - prior, prior - v[bins - 1 - i], "a symmetric deviation grid is symmetric about the prior")


@case("C10", quick=[dict(bins=n) for n in (2, 4)])
def off_grid(ctx, bins):
    low, step = ctx.real("low", -10, 10), ctx.real("step", 0.1, 10)
    par = fit_par(ctx, "scale", low, low + (bins - 1) * step, bins, low)
    x = ctx.real("x", -100, 100)
    for v in values_of(par):
        ctx.assume(ctx.abs(x - v) > 1e-7)
    ctx.raises(ValueError, par.get_value_index, x, label="a value not on the grid is refused with a ValueError")


@case("C10", quick=[dict(bins=4)], thorough=[dict(bins=n) for n in (2, 3, 6)], budget=120)
def nearest_bin(ctx, bins):
    """get_bin of a grid value is its index, however close to its neighbours and but for rounding."""
    low, step = ctx.real("low", -1e6, 1e6), ctx.real("step", 0.001, 1000)
    par = fit_par(ctx, ctx.choice("kind", KINDS), low, low + (bins - 1) * step, bins, low)
    off = ctx.choice("rounding", [0., -1e-9, 1e-9])
    for i in range(bins):
        ctx.check(par.get_bin(low + i * step + off) == i, "the bin of a grid value is its index")


@case("C10", quick=[dict(kw=k) for k in (dict(), dict(logscale=True), dict(logscale_deviation=True))])
def changed_any(ctx, kw):
    """After any setting is changed the grid is that of a parameter made with the settings."""
    old = dict(prior=5., sigma=1., low=1., high=9., bins=5)
    par = fit_par(ctx, "scale", old["low"], old["high"], old["bins"], old["prior"], sigma=1., **kw)
    par.get_values()
    par.get_value_at(0)
    new = dict(prior=ctx.real("prior", 5.5, 8.5), sigma=ctx.real("sigma", 0.1, 10), low=ctx.real("low", 0.5, 4.5),
               high=ctx.real("high", 8.75, 30), bins=7)
    which = ctx.choice("which", [("prior",), ("sigma",), ("low",), ("high",), ("bins",), ("prior", "sigma"),
                                 ("prior", "bins"), ("low", "prior", "high")])
    par.set_par(**dict((k, new[k]) for k in which))
    want = dict((k, new[k] if k in which else v) for k, v in old.items())
    other = fit_par(ctx, "scale", want["low"], want["high"], want["bins"], want["prior"], sigma=want["sigma"], **kw)
    a, b = values_of(par), values_of(other)
    ctx.check(len(a) == len(b), "the grid follows changed settings")
    if len(a) == len(b):
        ctx.eq(a, b, "the grid follows changed settings")
        for i in range(len(b)):
            ctx.eq(par.get_value_at(i), b[i], "the grid follows changed settings")


@case("C10", quick=[dict(kind=k) for k in ("rate", "resolution", "shift", "scale")])
def warned(ctx, kind):
    """A warning is given for a prior that is not on the grid, and for values that a parameter cannot have."""
    low, step = ctx.real("low", -10, 10), ctx.real("step", 0.125, 10)
    at = ctx.choice("prior_at", [0, 1, 2, "between"])
    frac = ctx.real("frac", 0.125, 0.875)
    prior = low + at * step if at != "between" else low + (1 + frac) * step
    if ctx.choice("zero", [False, True]):
        ctx.assume(prior == 0)
        prior = 0.
    par = fit_par(ctx, kind, low, low + 2 * step, 3, prior)
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        par.check_values()
    texts = [str(w.message) for w in got]
    minimum = {"rate": 0.}.get(kind)             # a rate is never negative
    bad = bool(low < minimum) if minimum is not None else False
    ctx.check(any("Prior" in t for t in texts) == (at == "between"),
              "a warning is given exactly when the prior is not on the grid")
    ctx.check(any("bounds" in t for t in texts) == bad, "a warning is given exactly when a value is out of bounds")


@case("C10", quick=[dict()])
def changed(ctx):
    par = fit_par(ctx, ctx.choice("kind", KINDS), 1., 5., 3, 2., sigma=ctx.choice("old_sigma", [1., None]))
    par.get_values()
    low, high = ctx.real("low", 6, 9), ctx.real("high", 10, 30)
    prior, sigma = ctx.real("prior", 1, 100), ctx.real("sigma", 0.01, 10)
    new = dict(low=low, high=high, bins=ctx.choice("bins", [2, 4, 4.0]), prior=prior, sigma=sigma)
    which = ctx.choice("which", [("low", "high"), ("high",), ("bins",), ("low", "high", "bins"), ("prior", "sigma"),
                                 ("high", "sigma")])
    want = dict(low=1., high=5., bins=3, prior=2., sigma=par.get_sigma())
    for k in which:
        want[k] = new[k]
    par.set_par(**dict((k, new[k]) for k in which))
    n = int(want["bins"])
    v = values_of(par)
    ctx.check(len(v) == n, "the grid follows changed settings")
    for i in range(n):
        ctx.eq(v[i], want["low"] + i * (want["high"] - want["low"]) / (n - 1), "the grid follows changed settings")
    ctx.eq(par.get_prior(), want["prior"], "the prior is the one set last")
    if want["sigma"] is None:
        ctx.check(par.get_sigma() is None, "sigma is the one set last")
    else:
        ctx.eq(par.get_sigma(), want["sigma"], "sigma is the one set last")
    ctx.eq([par.get_low(), par.get_high(), par.get_bins()], [want["low"], want["high"], n],
           "the limits are the ones set last")


@case("C10", quick=[dict()])
def changed_scale(ctx):
    """Switching the kind of grid and the other non-numeric settings."""
    par = fit_par(ctx, "scale", 1., 4., 3, 2.)
    par.get_values()
    how = ctx.choice("how", ["logscale", "logscale_deviation", "sigma", "dimension", "unknown"])
    high = ctx.real("high", 3, 30)
    if how == "logscale":
        par.set_par(logscale=True, high=high)
        v = values_of(par)
        ctx.check(len(v) == 3, "the grid follows changed settings")
        ctx.eq(v[0], 1., "the grid follows changed settings")
        ctx.eq(v[1], ctx.exp(ctx.log(high) / 2), "the grid follows changed settings")
        ctx.eq(v[2], high, "the grid follows changed settings")
    elif how == "logscale_deviation":
        par.set_par(logscale_deviation=True, high=high, bins=5)
        v = values_of(par)
        ctx.check(len(v) == 5, "the grid follows changed settings")
        ctx.eq(v[0], 1., "the grid follows changed settings")
        ctx.eq(v[-1], high, "the grid follows changed settings")
    elif how == "sigma":
        par.set_par(sigma=None)
        ctx.check(par.get_sigma() is None, "a penalty can be switched off")
    elif how == "dimension":
        par.set_par(dimension="radial_mc")
        ctx.check(par.get_dimension() == "radial_mc", "the dimension is the one set last")
    else:
        ctx.raises(TypeError, par.set_par, label="an unknown setting is refused", colour=1.)


@case("C10", quick=[dict()])
def refused_change(ctx):
    """Settings that are refused, together with others that are fine, change none of them."""
    par = fit_par(ctx, "shift", -2., 2., 3, 1.)
    grid = values_of(par)
    before = par.to_dict()
    kw = refused_kwargs(ctx)
    kw["prior"] = 0.5
    ctx.refuses(par.set_par, label="an unknown or impossible setting is refused", **kw)
    ctx.eq(par.to_dict(), before, "a refused setting changes nothing")
    ctx.eq(values_of(par), grid, "a refused setting changes nothing")
    ctx.check(par.get_bins() == len(values_of(par)), "a refused setting changes nothing")


@case("C10", quick=[dict()])
def penalty(ctx):
    ts = ctx.load("echidna.fit.test_statistic")
    cls = ctx.choice("statistic", ["BakerCousinsChi", "BakerCousinsChiUp", "BakerCousinsLL", "Pearson", "Neyman"])
    t = getattr(ts, cls)()
    v, p = ctx.real("value", -1000, 1000), ctx.real("prior", -1000, 1000)
    s = ctx.real("sigma", 0.001, 1000)
    ll = 2. if cls == "BakerCousinsLL" else 1.      # a log likelihood is half a chi squared
    ctx.eq(t.get_penalty_term(v, p, s), (v - p) * (v - p) / (s * s) / ll,
           "the penalty is ((value - prior) / sigma)^2 (half of it for a log likelihood)")


@case("C10", quick=[dict()])
def recorded(ctx):
    """Current value, best fit and penalty are the ones set; unset ones are refused."""
    par = fit_par(ctx, ctx.choice("kind", KINDS), 0., 2., 3, 1.)
    for get in (par.get_best_fit, par.get_penalty_term, par.get_current_value):
        ctx.raises(ValueError, get, label="a value that was never set is refused")
    sigma, prior = ctx.real("sigma", 0, 5), ctx.real("prior", -5, 5)
    own = fit_par(ctx, ctx.choice("own kind", KINDS), 0., 2., 3, prior, sigma=sigma)
    ctx.check(own.get_sigma() is not None, "prior and sigma are the ones given")
    ctx.eq([own.get_prior(), own.get_sigma()], [prior, sigma], "prior and sigma are the ones given")
    a, b, c = ctx.real("a"), ctx.real("b"), ctx.real("c")
    par.set_best_fit(a)
    par.set_penalty_term(b)
    par.set_current_value(c)
    ctx.eq([par.get_best_fit(), par.get_penalty_term(), par.get_current_value()], [a, b, c],
           "best fit, penalty and current value are the ones set")


# -- C11 -------------------------------------------------------------------------------------------
FIT_ATTRS = ["_name", "_prior", "_sigma", "_low", "_high", "_bins", "_dimension", "_logscale", "_base",
             "_logscale_deviation"]
RESULT_ATTRS = ["_current_value", "_best_fit", "_penalty_term"]


def same_par(ctx, a, b, attrs, label):
    ctx.check(type(a) is type(b), label + " (kind of parameter)")
    for k in attrs:
        x, y = getattr(a, k), getattr(b, k)
        if x is None or y is None or isinstance(x, str):
            ctx.check(x is y or x == y, "%s (%s)" % (label, k[1:]))
        else:
            ctx.eq(x, y, "%s (%s)" % (label, k[1:]))
    ctx.check(type(a._bins) is type(b._bins), label + " (bins)")


def scale_kw(ctx, tag):
    return ctx.choice("scale_" + tag, [dict(), dict(logscale=True), dict(logscale=True, base=10.),
                                       dict(logscale_deviation=True)])


def sym_fit_par(ctx, kind, tag, dim="energy_mc", name=None, results=True, bins=3, kw=None, sigma=None):
    p = ctx.load("echidna.core.parameter")
    low, high = ctx.real(tag + "_low", 0.5, 10), ctx.real(tag + "_high", 20, 30)
    prior = ctx.real(tag + "_prior", 10, 20)
    if sigma is None:
        sigma = ctx.real(tag + "_sigma", 0.1, 10)
    elif sigma == "none":
        sigma = None
    kw = dict(kw or {})
    if kind == "rate":
        par = p.RateParameter(name or "rate", prior, sigma, low, high, bins, **kw)
    else:
        cls = dict(resolution=p.ResolutionParameter, resolution_ly=p.ResolutionParameter, shift=p.ShiftParameter,
                   scale=p.ScaleParameter)[kind]
        par = cls(name or dim + "_" + kind, prior, sigma, low, high, bins, dimension=dim, **kw)
    if results:
        par.set_current_value(ctx.real(tag + "_current", 0, 100))
        par.set_best_fit(ctx.real(tag + "_best", 0, 100))
        par.set_penalty_term(ctx.real(tag + "_penalty", 0, 100))
    return par


@case("C11", quick=[dict()])
def parameter_dict(ctx):
    p = ctx.load("echidna.core.parameter")
    kind = ctx.choice("kind", KINDS)
    results = ctx.choice("results", [True, False, "current", "best", "penalty"])
    given = ctx.choice("sigma_is", [None, "none", 0.])
    par = sym_fit_par(ctx, kind, "p", results=results is True, kw=scale_kw(ctx, "p"), sigma=given)
    if results not in (True, False):          # only one of them is known
        getattr(par, dict(current="set_current_value", best="set_best_fit", penalty="set_penalty_term")[results])(
            ctx.real("p_" + results, -100, 100))
    basic = ctx.choice("basic", [False, True])
    d = par.to_dict(basic)
    if kind != "rate":
        d["dimension"] = par.get_dimension()
    ctx.check((d["sigma"] is None) == (given == "none"), "the dictionary has the width that was given")
    b = type(par)(par.get_name(), **d)
    same_par(ctx, par, b, FIT_ATTRS, "a parameter rebuilt from its dictionary is the same")
    if basic:
        for k in RESULT_ATTRS:
            ctx.check(getattr(b, k) is None, "basic dictionaries hold settings only")
    else:
        same_par(ctx, par, b, RESULT_ATTRS, "results kept in the dictionary are the recorded ones")
    spar = p.SpectraParameter("radial_mc", par._low, par._high, par._bins)
    q = p.SpectraParameter("radial_mc", **spar.to_dict())
    same_par(ctx, spar, q, ["_name", "_low", "_high", "_bins"], "a dimension rebuilt from its dictionary is the same")


class Yaml(object):
    """Keeps the text that is written, by file."""

    def __init__(self):
        self.files = {}

    def install(self, ctx, config):
        y = self

        class Stream(io.StringIO):
            def __init__(self, name, mode):
                io.StringIO.__init__(self, y.files.get(name, "") if mode[0] != "w" else "")
                self.name, self.mode = name, mode
                if mode[0] == "r" and name not in y.files:
                    raise IOError("No such file %s" % name)
                if mode[0] == "a":
                    self.seek(0, 2)
                y.files.setdefault(name, "")

            def __exit__(self, *a):
                self.close()
                return False

            def keep(self):
                if self.mode[0] != "r":
                    y.files[self.name] = self.getvalue()

            def write(self, text):
                n = io.StringIO.write(self, text)
                self.keep()
                return n

            def close(self):
                if not self.closed:
                    self.keep()
                io.StringIO.close(self)

        def opened(name, mode="r", *a):
            return Stream(name, mode)
        config.__dict__["open"] = opened
        ctx.load("echidna.util.yaml_loader").__dict__["open"] = opened


def same_config(ctx, a, b, label, attrs, results=False):
    ctx.check(list(a.get_pars()) == list(b.get_pars()), label + " (parameters and their order)")
    if list(a.get_pars()) != list(b.get_pars()):
        return
    for n in a.get_pars():
        same_par(ctx, a.get_par(n), b.get_par(n), attrs, label)
        if results:
            same_par(ctx, a.get_par(n), b.get_par(n), RESULT_ATTRS, label)


@case("C11", quick=[dict()])
def spectra_config(ctx):
    c = ctx.load("echidna.core.config")
    p = ctx.load("echidna.core.parameter")
    names = ctx.choice("names", [["energy_mc"], ["radial_mc", "energy_mc"], ["energy_reco", "z_pos_truth", "a_mc"]])
    pars = OrderedDict()
    for n in names:
        low = ctx.real(n + "_low", -10, 10)
        pars[n] = p.SpectraParameter(n, low, low + ctx.real(n + "_span", 1, 10), ctx.choice("bins_" + n, [1, 7]))
    cfg = c.SpectraConfig("mine", pars)
    attrs = ["_name", "_low", "_high", "_bins"]
    b = c.SpectraConfig.load(cfg.dump(), name="other")
    same_config(ctx, cfg, b, "a spectral configuration survives dump and load", attrs)
    ctx.check(b.get_name() == "other", "a loaded configuration has the name asked for")
    y = Yaml()
    y.install(ctx, c)
    cfg.dump_to_file(path="v1.yml.d/run.2/", filename="saved.mc")
    ctx.check(list(y.files) == ["v1.yml.d/run.2/saved.mc.yml"], "a configuration is saved to the file asked for")
    b = c.SpectraConfig.load_from_file("v1.yml.d/run.2/saved.mc.yml", name="")
    same_config(ctx, cfg, b, "a spectral configuration survives being saved and loaded", attrs)
    ctx.check(b.get_name() == "saved.mc", "a blank name means the name of the file")
    cfg.dump_to_file(path="dir/", filename="saved")
    b = c.SpectraConfig.load_from_file("dir/saved.yml", name="other")
    same_config(ctx, cfg, b, "a spectral configuration survives being saved and loaded", attrs)
    ctx.check(b.get_name() == "other", "a loaded configuration has the name asked for")
    ctx.check(c.SpectraConfig.load_from_file("dir/saved.yml", name="").get_name() == "saved",
              "a blank name means the name of the file")
    ctx.check(c.SpectraConfig.load_from_file("dir/saved.yml").get_name() == "config", "the default name is used")
    cfg.dump_to_file(path="dir/", filename="")
    ctx.check("dir/mine.yml" in y.files, "a blank file name means the name of the configuration")
    cfg.dump_to_file(path="dir/")
    ctx.check("dir/spectra_config.yml" in y.files, "the default file name is the documented one")
    ctx.refuses(c.SpectraConfig.load, {"pars": cfg.dump()["parameters"]}, label="a malformed dictionary is refused")


@case("C11", quick=[dict()])
def spectra_fit_config(ctx):
    c = ctx.load("echidna.core.config")
    names = ctx.choice("names", [["rate"], ["rate_b", "rate_a"]])
    pars = OrderedDict()
    for n in names:
        pars[n] = sym_fit_par(ctx, "rate", n, name=n, kw=scale_kw(ctx, n) if n == names[0] else None)
    cfg = c.SpectraFitConfig("mine", pars, "Te130_2n2b")
    basic = ctx.choice("basic", [False, True])
    b = c.SpectraFitConfig.load(cfg.dump(basic), "Te130_2n2b", name="other")
    same_config(ctx, cfg, b, "a fit configuration survives dump and load", FIT_ATTRS, results=not basic)
    ctx.check(b.get_name() == "other", "a loaded configuration has the name asked for")
    ctx.check(b._spectra_name == "Te130_2n2b", "a loaded configuration belongs to the spectrum asked for")
    y = Yaml()
    y.install(ctx, c)
    cfg.dump_to_file(path="v1.yml.d/run.2/", spectral_fname="saved.mc", basic=basic)
    ctx.check(list(y.files) == ["v1.yml.d/run.2/saved.mc.yml"], "a configuration is saved to the file asked for")
    b = c.SpectraFitConfig.load_from_file("v1.yml.d/run.2/saved.mc.yml", "Te130_2n2b", name="")
    same_config(ctx, cfg, b, "a fit configuration survives being saved and loaded", FIT_ATTRS, results=not basic)
    ctx.check(b.get_name() == "saved.mc", "a blank name means the name of the file")
    cfg.dump_to_file(path="dir/", spectral_fname="saved.yml", basic=basic)
    b = c.SpectraFitConfig.load_from_file("dir/saved.yml", "Te130_2n2b", name="other")
    same_config(ctx, cfg, b, "a fit configuration survives being saved and loaded", FIT_ATTRS, results=not basic)
    ctx.check(b.get_name() == "other", "a loaded configuration has the name asked for")
    ctx.check(c.SpectraFitConfig.load_from_file("dir/saved.yml", "Te130_2n2b", name="").get_name() == "saved",
              "a blank name means the name of the file")
    ctx.check(c.SpectraFitConfig.load_from_file("dir/saved.yml", "x").get_name() == "spectral_fit_config",
              "the default name is used")
    ctx.refuses(c.SpectraFitConfig.load, {"parameters": cfg.dump()["spectral_fit_parameters"]}, "x",
                label="a malformed dictionary is refused")
    ctx.refuses(c.SpectraFitConfig.load, {"spectral_fit_parameters": {"mass": pars[names[0]].to_dict(True)}}, "x",
                label="a malformed dictionary is refused")


GLOBALS = [[("energy_mc", "resolution_ly")], [("energy_mc", "shift"), ("radial_mc", "shift"), ("energy_mc", "scale")],
           [("energy_mc", "resolution"), ("energy_reco", "scale")]]


@case("C11", quick=[dict()])
def global_config(ctx):
    c = ctx.load("echidna.core.config")
    which = ctx.choice("pars", GLOBALS)
    spectral = ctx.choice("spectral", [[], ["Bi214_rate"], ["b_rate", "a_rate"]])
    cfg = c.GlobalFitConfig("mine", OrderedDict())
    want = OrderedDict()
    # dimensions are grouped in the dictionary form, in order of first appearance
    for dim in list(OrderedDict.fromkeys(d for d, _ in which)):
        for d, s in which:
            if d == dim:
                want[d + "_" + s] = None
    kw = scale_kw(ctx, "g")
    for d, s in which:
        cfg.add_par(sym_fit_par(ctx, s, d + s, dim=d, kw=kw), "global")
    for n in spectral:
        cfg.add_par(sym_fit_par(ctx, "rate", n, name=n), "spectra")
        want[n] = None
    basic = ctx.choice("basic", [False, True])

    def loaded(b, name):
        ctx.check(b.get_name() == name, "a loaded configuration has the name asked for")
        ctx.check(list(b.get_pars()) == list(want), "a global configuration lists the same parameters once loaded")
        if list(b.get_pars()) != list(want):
            return
        for n in want:
            same_par(ctx, cfg.get_par(n), b.get_par(n), FIT_ATTRS + ([] if basic else RESULT_ATTRS),
                     "a global configuration survives dump and load")
        ctx.check([q.get_name() for q in b.get_spectra_pars()] == spectral,
                  "spectral parameters are still spectral once loaded")
    g, s = cfg.dump(basic)
    loaded(c.GlobalFitConfig.load(g, s if spectral else None, name="other"), "other")
    y = Yaml()
    y.install(ctx, c)
    cfg.dump_to_file(path="v1.yml.d/run.2/", global_fname="glob.mc", spectral_fname="spec.mc", basic=basic)
    ctx.check(sorted(y.files) == ["v1.yml.d/run.2/%s.mc.yml" % n for n in ("glob", "spec")],
              "a configuration is saved to the files asked for")
    sf = "v1.yml.d/run.2/spec.mc.yml" if spectral else None
    loaded(c.GlobalFitConfig.load_from_file("v1.yml.d/run.2/glob.mc.yml", sf, name=""), "glob.mc")
    cfg.dump_to_file(path="dir/", global_fname="glob", spectral_fname="spec", basic=basic)
    sf = "dir/spec.yml" if spectral else None
    loaded(c.GlobalFitConfig.load_from_file("dir/glob.yml", sf, name="other"), "other")
    loaded(c.GlobalFitConfig.load_from_file("dir/glob.yml", sf, name=""), "glob")
    loaded(c.GlobalFitConfig.load_from_file("dir/glob.yml", sf), "global_fit_config")
    loaded(c.GlobalFitConfig.load(g, s if spectral else None), "global_fit_config")
    ctx.refuses(c.GlobalFitConfig.load, {"parameters": g["global_fit_parameters"]},
                label="a malformed dictionary is refused")
    d = OrderedDict([("energy_mc", {"colour": cfg.get_par(list(want)[0]).to_dict(True)})])
    ctx.refuses(c.GlobalFitConfig.load, {"global_fit_parameters": d}, label="a malformed dictionary is refused")


@case("C11", quick=[dict(kind=k) for k in ("global", "spectra_fit")])
def used_config(ctx, kind):
    """Files of configurations whose parameters hold the values of a fit; names given to the files."""
    c = ctx.load("echidna.core.config")
    names = ["rate_b", "rate_a"]
    pars = [sym_fit_par(ctx, "rate", n, name=n, results=False) for n in names]
    if kind == "global":
        cfg = c.GlobalFitConfig("mine", OrderedDict())
        cfg.add_par(sym_fit_par(ctx, "shift", "g", results=False), "global")
        for q in pars:
            cfg.add_par(q, "spectra")
    else:
        cfg = c.SpectraFitConfig("mine", OrderedDict((q.get_name(), q) for q in pars), "Te130_2n2b")
    for n in cfg.get_pars():
        q = cfg.get_par(n)
        for v in q.get_values():
            q.set_current_value(v)
        k = ctx.choice("best_" + n, [0, 2])
        q.set_best_fit(q.get_value_at(k))
        q.set_penalty_term((q.get_best_fit() - q.get_prior()) ** 2 / q.get_sigma() ** 2)
    y = Yaml()
    y.install(ctx, c)
    fname = ctx.choice("file", ["saved", ""])
    if kind == "global":
        cfg.dump_to_file("dir/", global_fname=fname and fname + "_g", spectral_fname=fname and fname + "_s")
        ctx.check(sorted(y.files) == (["dir/saved_g.yml", "dir/saved_s.yml"] if fname else
                                      ["dir/mine_global.yml", "dir/mine_spectral.yml"]),
                  "a configuration is saved to the files asked for, or to files of its name")
        b = c.GlobalFitConfig.load_from_file(*sorted(y.files))
    else:
        cfg.dump_to_file("dir/", fname)
        ctx.check(list(y.files) == ["dir/saved.yml" if fname else "dir/mine_spectral.yml"],
                  "a configuration is saved to the files asked for, or to files of its name")
        b = c.SpectraFitConfig.load_from_file(list(y.files)[0], "Te130_2n2b")
    same_config(ctx, cfg, b, "a fit configuration holding results survives being saved", FIT_ATTRS, results=True)


# -- C12 -------------------------------------------------------------------------------------------
@case("C12", quick=[dict()])
def enumeration(ctx):
    c = ctx.load("echidna.core.config")
    p = ctx.load("echidna.core.parameter")
    kind = ctx.choice("config", ["spectra", "spectra_fit", "global"])
    order = ctx.choice("order", [["energy_mc", "radial_mc"], ["radial_mc", "energy_mc", "a_mc"], ["energy_mc"]])
    bins = dict((n, ctx.int("bins_" + n, 1, 1000)) for n in order)
    made = OrderedDict()
    for n in order:
        if kind == "spectra":
            made[n] = p.SpectraParameter(n, 0., 1., bins[n])
        elif kind == "spectra_fit":
            made[n + "_rate"] = p.RateParameter(n + "_rate", 1., 1., 0., 2., bins[n])
        else:
            made[n + "_shift"] = p.ShiftParameter(n + "_shift", 1., 1., 0., 2., bins[n], n)
    if kind == "spectra":
        cfg = c.SpectraConfig("c", OrderedDict())
    elif kind == "spectra_fit":
        cfg = c.SpectraFitConfig("c", OrderedDict(), "s")
    else:
        cfg = c.GlobalFitConfig("c", OrderedDict())
    for k, v in made.items():
        if kind == "global":
            cfg.add_par(v, "global")
        else:
            cfg.add_par(v)
    ctx.check(list(cfg.get_pars()) == list(made), "parameters are listed in the order they were added")
    for i, n in enumerate(made):
        ctx.check(cfg.get_index(n) == i, "the index of a parameter is its place in the list")
        ctx.check(cfg.get_par_by_index(i) is made[n], "the parameter at an index is the listed one")
        ctx.check(cfg.get_par(n) is made[n], "a parameter is found by its name")
    ctx.eq(tuple(cfg.get_shape()), tuple(bins[n] for n in order), "the shape lists the bins in the same order")
    ctx.refuses(cfg.get_index, "unknown_mc", label="an unknown parameter is refused")
    ctx.refuses(cfg.get_par, "unknown_mc", label="an unknown parameter is refused")
    ctx.check(cfg.get_name() == "c", "the name of a configuration is the one given")
    ctx.check(cfg.get_type() == {"spectra": "spectra", "spectra_fit": "spectra_fit", "global": "global_fit"}[kind],
              "the type of a configuration is its type")
    if kind == "global":
        ctx.check([q.get_dimension() for q in cfg.get_global_pars()] == order, "parameters act on their dimension")
        ctx.raises(IndexError, cfg.add_par, made[order[0] + "_shift"], "other", label="a bad kind of parameter is refused")
    if kind == "spectra":
        ctx.eq([cfg.get_dim(n) for n in order], [n[:-3] for n in order], "the dimension drops the suffix")
        ctx.check(sorted(cfg.get_dims()) == sorted(n[:-3] for n in order), "the dimensions are those of the parameters")


@case("C12", quick=[dict()])
def dimension_types(ctx):
    c = ctx.load("echidna.core.config")
    p = ctx.load("echidna.core.parameter")
    t = [ctx.choice("type%d" % i, ["mc", "reco", "truth"]) for i in range(2)]
    dims = ctx.choice("dims", [["energy", "radial"], ["radial3", "radial"], ["z_pos", "energy"],
                              ["cosmic", "atom"], ["secret", "oce"], ["truth", "hut"], ["mc", "a_mc"]])
    pars = OrderedDict((d + "_" + k, p.SpectraParameter(d + "_" + k, 0., 1., 3)) for d, k in zip(dims, t))
    cfg = c.SpectraConfig("c", pars)
    for d, k in zip(dims, t):
        ctx.check(cfg.get_dim_type(d) == k, "the type of a dimension is its suffix")
        ctx.check(cfg.get_dim(d + "_" + k) == d, "the dimension drops the suffix")
    ctx.check(sorted(cfg.get_dims()) == sorted(dims), "the dimensions are those of the parameters")
    ctx.refuses(cfg.get_dim_type, "time", label="an unknown dimension is refused")


@case("C12", quick=[dict()])
def merge(ctx):
    c = ctx.load("echidna.core.config")
    kept = [sym_fit_par(ctx, "shift", "g", results=False), sym_fit_par(ctx, "rate", "old", name="Tl_rate", results=False)]
    cfg = c.GlobalFitConfig("global", OrderedDict())
    cfg.add_par(kept[0], "global")
    cfg.add_par(kept[1], "spectra")
    names = ctx.choice("names", [["rate"], ["rate", "rate_two"], ["Bi214_rate", "rate"]])
    spectra = ctx.choice("spectra", [["Bi214"], ["Te", "Bi214"]])
    parts, want = [], ["energy_mc_shift", "Tl_rate"]
    before = [dict((k, getattr(q, k)) for k in FIT_ATTRS) for q in kept]
    for s in spectra:
        pars = OrderedDict((n, sym_fit_par(ctx, "rate", s + n, name=n, results=False)) for n in names)
        parts.append((c.SpectraFitConfig("c", pars, s), dict((n, dict((k, getattr(pars[n], k)) for k in FIT_ATTRS))
                                                             for n in names)))
        want += [s + "_" + n for n in names]
    for part, _ in parts:
        cfg.add_config(part)
    ctx.check(list(cfg.get_pars()) == want, "merging keeps all entries and adds each under its spectrum's name")
    if list(cfg.get_pars()) != want:
        return
    ctx.check(cfg.get_par("energy_mc_shift") is kept[0] and cfg.get_par("Tl_rate") is kept[1],
              "merging keeps the existing parameters")
    for q, b in zip(kept, before):
        for k in FIT_ATTRS:
            ctx.eq(getattr(q, k), b[k], "merging keeps the existing parameters")
    ctx.check(cfg.get_global_pars() == [kept[0]], "merging leaves the global parameters")
    ctx.check([q.get_name() for q in cfg.get_spectra_pars()] == want[1:], "merged parameters are spectral")
    for (part, old), s in zip(parts, spectra):
        ctx.check(list(part.get_pars()) == names, "the spectrum's configuration lists the same parameters")
        ctx.check(part._spectra_name == s, "the spectrum's configuration is still that spectrum's")
        for n in names:
            ctx.check(part.get_par(n) is cfg.get_par(s + "_" + n), "the merged parameter is the spectrum's parameter")
            for k in FIT_ATTRS[1:]:
                ctx.eq(getattr(part.get_par(n), k), old[n][k], "merging keeps the spectrum's settings")


@case("C12", quick=[dict()])
def merge_global(ctx):
    c = ctx.load("echidna.core.config")
    p = ctx.load("echidna.core.parameter")
    a, b = c.GlobalFitConfig("a", OrderedDict()), c.GlobalFitConfig("b", OrderedDict())
    g, h = sym_fit_par(ctx, "shift", "g", results=False), sym_fit_par(ctx, "scale", "h", results=False)
    r, q = sym_fit_par(ctx, "rate", "r", name="x_rate", results=False), sym_fit_par(ctx, "rate", "q", name="y_rate",
                                                                                    results=False)
    a.add_par(g, "global")
    a.add_par(r, "spectra")
    b.add_par(h, "global")
    b.add_par(q, "spectra")
    # of every kind: a parameter is global or spectral by how it was added, not by what it is
    more = [sym_fit_par(ctx, k, "s" + k, name="y_energy_mc_" + k, results=False) for k in ("shift", "scale", "resolution")]
    k = ctx.choice("more", range(len(more) + 1))
    rate = sym_fit_par(ctx, "rate", "grate", name="all_rate", results=False)
    for m in more[:k]:
        b.add_par(m, "spectra")
    b.add_par(rate, "global")
    a.add_config(b)
    names = ["energy_mc_scale", "y_rate"] + [m.get_name() for m in more[:k]] + ["all_rate"]
    ctx.check(sorted(a.get_pars()) == sorted(["energy_mc_shift", "x_rate"] + names),
              "merging keeps all entries and adds the others")
    ctx.check(a.get_global_pars() == [g, h, rate] and a.get_spectra_pars() == [r, q] + more[:k],
              "merging keeps the kind of parameters")
    ctx.check(list(b.get_pars()) == names, "the merged configuration is left alone")
    s = c.SpectraConfig("s", OrderedDict([("energy_mc", p.SpectraParameter("energy_mc", 0., 1., 2))]))
    ctx.raises(ValueError, a.add_config, s, label="a configuration of another type is refused")
    ctx.check(len(a.get_pars()) == 2 + len(names), "a refused merge changes nothing")
