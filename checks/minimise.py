"""C19-C21: the grid search, its stored grids, and fit/limit summaries."""
from collections import OrderedDict

import numpy as np

from engine.registry import case
from checks.common import Geo, indices, spectra_config, total
from checks.params import fit_par, values_of

AXES = ["energy_mc", "radial_mc", "time_mc", "theta_mc"]


def grid_config(ctx, bins, sigmas=None, priors=None, sym_grid=False, name="fit"):
    """A global fit configuration with parameters of the given numbers of grid values, of every kind."""
    c = ctx.load("echidna.core.config").GlobalFitConfig(name, OrderedDict())
    kinds = [("rate", "bkg_rate", "spectra"), ("shift", "energy_mc_shift", "global"), ("scale", "energy_mc_scale", "global")]
    pars = []
    for k, n in enumerate(bins):
        kind, pname, typ = kinds[k % 3]
        low, step = [(10., 5.), (-1., 0.75), (0.5, 0.25)][k % 3]
        if sym_grid:
            low, step = ctx.real("low%d" % k, -10, 10), ctx.real("step%d" % k, 0.5, 10)
        prior = priors[k] if priors else low
        sigma = sigmas[k] if sigmas else None
        p = fit_par(ctx, kind, low, low + (n - 1) * step, n, prior, sigma=sigma, name=pname)
        c.add_par(p, typ)
        pars.append((p, [low + i * step for i in range(n)]))
    return c, pars


def data_config(ctx, shape):
    return spectra_config(ctx, [Geo(AXES[a], 2. + a, 1., n) for a, n in enumerate(shape)])


def statistic(ctx, cls="BakerCousinsChi", per_bin=False):
    return getattr(ctx.load("echidna.fit.test_statistic"), cls)(per_bin=per_bin)


def np_mod(ctx):
    return ctx.loader._import("numpy")


def asum(a):
    return total(list(np.asarray(a, dtype=object).ravel())) if getattr(a, "shape", ()) else a


def search(ctx, fc, sc, per_bin, use_numpy, name="gs"):
    return ctx.load("echidna.fit.minimise").GridSearch(fc, sc, name=name, per_bin=per_bin, use_numpy=use_numpy)


MINI = ([dict(bins=b, per_bin=(), np_=u) for b in ((4,), (2, 3), (2, 1, 2)) for u in (True, False)] +
        [dict(bins=(2, 2), per_bin=s, np_=u) for s in ((2,), (1,), (2, 2)) for u in (True, False)] +
        [dict(bins=(3,), per_bin=(3,), np_=u) for u in (True, False)])


@case("C19", quick=MINI,
      thorough=[dict(bins=b, per_bin=(), np_=u) for b in ((6,), (3, 3), (2, 2, 2), (3, 2)) for u in (True, False)] +
               [dict(bins=(2, 3), per_bin=(2,), np_=u) for u in (True, False)], budget=120)
def minimise(ctx, bins, per_bin, np_):
    n = len(bins)
    sigmas = [None if k == 1 else ctx.real("sigma%d" % k, 0.1, 10) for k in range(n)]
    priors = [ctx.real("prior%d" % k, -50, 50) for k in range(n)]
    fc, pars = grid_config(ctx, bins, sigmas, priors)
    sc = data_config(ctx, per_bin or (2,))
    gs = search(ctx, fc, sc, bool(per_bin), np_)
    stats, pens, calls = {}, {}, []

    def funct(*args):
        args = list(args)
        at = None
        for i in indices(bins):
            if len(args) == n and all(abs(float(args[k]) - pars[k][1][i[k]]) < 1e-9 for k in range(n)):
                at = i
        calls.append(at)
        if at is None:
            ctx.fail("the statistic is evaluated at grid values only", "at %s" % args)
            at = indices(bins)[0]
        if at not in stats:
            t = "_".join(map(str, at))
            stats[at] = ctx.reals("s" + t, per_bin) if per_bin else ctx.real("s" + t)
            pens[at] = ctx.real("p" + t)
        s = stats[at]
        return (s.copy() if per_bin else s), pens[at]

    ts = statistic(ctx, per_bin=bool(per_bin))
    raw, pen = gs.minimise(funct, ts)
    ctx.check(sorted(calls) == indices(bins), "every combination of grid values is evaluated exactly once")
    if sorted(set(calls)) != indices(bins):
        return
    tot = dict((i, asum(stats[i]) + pens[i]) for i in indices(bins))
    for i in indices(bins):
        ctx.eq(gs.get_raw_stat(i), stats[i], "each statistic is stored at its grid point")
        ctx.eq(gs.get_penalty_term(i), pens[i], "each penalty is stored at its grid point")
        ctx.eq(gs.get_stat(i), tot[i], "the total of a grid point is its statistic plus its penalty")
    best = []
    for k, (p, vs) in enumerate(pars):
        b = p.get_best_fit()
        at = [i for i, v in enumerate(vs) if abs(float(b) - v) < 1e-9]
        ctx.check(len(at) == 1, "the best fit is a grid value")
        if len(at) != 1:
            return
        best.append(at[0])
        if sigmas[k] is None:
            ctx.eq(p.get_penalty_term(), 0., "the recorded penalty of a parameter is that of its best fit")
        else:
            d = (vs[at[0]] - priors[k]) / sigmas[k]
            ctx.eq(p.get_penalty_term(), d * d, "the recorded penalty of a parameter is that of its best fit")
    best = tuple(best)
    for i in indices(bins):
        if i < best:
            ctx.check(tot[best] < tot[i], "the best fit is the first grid point with the smallest total")
        else:
            ctx.check(tot[best] <= tot[i], "the best fit is a grid point with the smallest total")
    ctx.eq(raw, stats[best], "the statistic returned is that of the best fit")
    ctx.eq(pen, pens[best], "the penalty returned is that of the best fit")


@case("C19", quick=[dict(np_=True), dict(np_=False)])
def symbolic_grid(ctx, np_):
    """The grid values themselves are arbitrary."""
    bins = (2, 3)
    fc, pars = grid_config(ctx, bins, sym_grid=True)
    gs = search(ctx, fc, data_config(ctx, (2,)), False, np_)
    seen = []
    best = ctx.choice("best", indices(bins))

    def funct(*args):
        seen.append(list(args))
        k = len(seen) - 1
        return ctx.arr([2., 3.]).sum() if tuple(indices(bins)[k % 6]) != best else 1., 0.
    gs.minimise(funct, statistic(ctx))
    ctx.check(len(seen) == 6, "every combination of grid values is evaluated exactly once")
    for i, args in zip(indices(bins), seen):
        ctx.eq(args, [pars[k][1][i[k]] for k in range(2)], "the statistic is evaluated at grid values only")
    for k in range(2):
        ctx.eq(pars[k][0].get_best_fit(), pars[k][1][best[k]], "the best fit is the first grid point with the smallest total")


@case("C19", quick=[dict(shape=s) for s in ((4,), (2, 2), (1, 3), (3, 1), (2, 2, 2), (1, 2, 2))],
      thorough=[dict(shape=s) for s in ((6,), (3, 3), (2, 4), (3, 2, 2), (2, 1, 2, 2))], budget=120)
def find_minimum(ctx, shape):
    gs = search(ctx, *two_configs(ctx), per_bin=False, use_numpy=False)
    a = ctx.reals("a", shape)
    old = ctx.snapshot(a)
    m, pos = gs.find_minimum(a)
    ctx.check(len(pos) == len(shape), "the position has one coordinate per dimension")
    pos = tuple(int(x) for x in pos)
    ctx.eq(m, old[pos], "the minimum is the value at the position returned")
    for i in indices(shape):
        if i < pos:
            ctx.check(old[pos] < old[i], "the position is the first one with the smallest value")
        else:
            ctx.check(old[pos] <= old[i], "the minimum is the smallest value")
    ctx.eq(a, old, "the array is not modified")


@case("C19", quick=[dict(shape=s) for s in ((2, 2, 2, 2), (2, 1, 3, 2), (3, 2, 2, 2))],
      thorough=[dict(shape=s) for s in ((2, 2, 2, 2, 2), (3, 3, 2, 3), (2, 3, 1, 2, 2))], budget=120)
def find_minimum_large(ctx, shape):
    """More dimensions: two arbitrary values among given ones, anywhere."""
    gs = search(ctx, *two_configs(ctx), per_bin=False, use_numpy=False)
    n = int(np.prod(shape))
    at = ctx.choice("at", range(n))
    vals = [float((7 * j + 3) % 11) for j in range(n)]
    vals[at] = ctx.real("x", -20, 20)
    other = (at + ctx.choice("other", [1, n // 2])) % n
    vals[other] = ctx.real("y", -20, 20)
    ctx.assume(vals[at] < -1)
    a = ctx.arr(vals).reshape(shape)
    old = ctx.snapshot(a)
    m, pos = gs.find_minimum(a)
    ctx.check(len(pos) == len(shape), "the position has one coordinate per dimension")
    pos = tuple(int(x) for x in pos)
    ctx.eq(m, old[pos], "the minimum is the value at the position returned")
    for i in indices(shape):
        if i < pos:
            ctx.check(old[pos] < old[i], "the position is the first one with the smallest value")
        else:
            ctx.check(old[pos] <= old[i], "the minimum is the smallest value")


def two_configs(ctx, bins=(2, 2), shape=(2,)):
    return grid_config(ctx, bins)[0], data_config(ctx, shape)


@case("C19", quick=[dict(np_=True), dict(np_=False)])
def wrong_results(ctx, np_):
    fc, sc = two_configs(ctx, (2, 2), (2,))
    gs = search(ctx, fc, sc, True, np_)
    how = ctx.choice("how", ["float", "list", "short", "long", "matrix"])
    x = ctx.real("x")
    val = dict(float=x, list=[x, x], short=ctx.arr([x]), long=ctx.arr([x, x, x]), matrix=ctx.arr([[x, x]]))[how]
    exc = TypeError if how in ("float", "list") else ValueError
    ctx.raises(exc, gs.minimise, lambda *a: (val, 0.), statistic(ctx, per_bin=True),
               label="a per-bin result that is not an array of the spectrum's shape is refused")


@case("C19", quick=[dict(np_=u) for u in (True, False)])
def again(ctx, np_):
    """A second search forgets the first."""
    bins = (2, 2)
    fc, pars = grid_config(ctx, bins, sigmas=[None, ctx.real("sigma", 0.1, 10)])
    stale = ctx.real("stale", 0.1, 10)
    for p, vs in pars:                                 # results of an earlier fit
        p.set_penalty_term(stale)
        p.set_best_fit(vs[0])
    gs = search(ctx, fc, data_config(ctx, (2,)), False, np_)
    ts = statistic(ctx)
    first, second = ctx.reals("a", bins), ctx.reals("b", bins)
    for vals in (first, second):
        it = iter(indices(bins))

        def funct(*a):
            i = next(it)
            return vals[i], 0.
        raw, pen = gs.minimise(funct, ts)
    for i in indices(bins):
        ctx.check(raw <= second[i], "a second search returns its own minimum")
        ctx.eq(pars[0][0].get_penalty_term(), 0., "a parameter without width has no penalty, whatever it had before")
        ctx.eq(gs.get_stat(i), second[i], "a second search stores its own statistics")
    ctx.check(ctx.Or(*[ctx.And(raw == second[i], *[ctx.near(pars[k][0].get_best_fit(), pars[k][1][i[k]])
                                                   for k in range(2)]) for i in indices(bins)]),
              "a second search records its own best fit")


# -- C20 -------------------------------------------------------------------------------------------
GRID = [dict(bins=(3,), per_bin=()), dict(bins=(2, 3), per_bin=()), dict(bins=(2, 1, 2), per_bin=()),
        dict(bins=(2,), per_bin=(2,)), dict(bins=(2, 2), per_bin=(2, 3)), dict(bins=(2, 2), per_bin=(1,))]
BIG = [dict(bins=(3, 4), per_bin=()), dict(bins=(2, 3, 2), per_bin=(3,)), dict(bins=(3, 2), per_bin=(2, 2))]


def filled(ctx, bins, per_bin):
    fc, pars = grid_config(ctx, bins)
    gs = search(ctx, fc, data_config(ctx, per_bin or (2,)), bool(per_bin), True)
    s = ctx.reals("s", tuple(bins) + tuple(per_bin))
    p = ctx.reals("p", tuple(bins))
    gs.set_stats(s)
    gs.set_penalty_terms(p)
    return gs, pars, ctx.snapshot(s), ctx.snapshot(p)


def par_values(pars, i):
    return dict((p.get_name(), vs[k]) for (p, vs), k in zip(pars, i))


def bin_sum(s, per_bin):
    """Sum over the spectral dimensions (the trailing ones)."""
    n = s.ndim - len(per_bin)
    o = np.empty(s.shape[:n], dtype=object)
    for i in indices(s.shape[:n]):
        o[i] = asum(s[i]) if per_bin else s[i]
    return o


@case("C20", quick=GRID, thorough=BIG)
def read_back(ctx, bins, per_bin):
    gs, pars, s, p = filled(ctx, bins, per_bin)
    ssum = bin_sum(s, per_bin)
    off = ctx.choice("rounding", [0., 1e-12, -1e-12])
    for i in indices(bins):
        ctx.eq(gs.get_raw_stat(i), s[i], "a raw statistic is read back as stored")
        ctx.eq(gs.get_penalty_term(i), p[i], "a penalty is read back as stored")
        ctx.eq(gs.get_stat(i), ssum[i] + p[i], "the statistic is the sum over bins plus the penalty")
        kw = dict((k, v + off) for k, v in par_values(pars, i).items())
        ctx.eq(gs.get_penalty_at(**kw), p[i], "a penalty is read back by parameter values")
        ctx.eq(gs.get_raw_stats(**kw), ssum[i], "raw statistics are read back by parameter values")
        if 1 not in per_bin:
            ctx.eq(gs.get_raw_stats_at(**kw), s[i], "raw statistics are read back by parameter values")
        else:
            ctx.eq(asum(gs.get_raw_stats_at(**kw)), ssum[i], "raw statistics are read back by parameter values")
    st = gs.get_stats()
    ctx.check(st.shape == tuple(bins), "all statistics come as the grid of parameter values")
    raw = gs.get_raw_stats()
    for i in indices(bins):
        ctx.eq(st[i], ssum[i] + p[i], "all statistics are the sums over bins plus the penalties")
        ctx.eq(raw[i], ssum[i], "all raw statistics are the sums over bins")
    if len(bins) == 1:
        ctx.eq(gs.get_penalty_terms("bkg_rate"), p, "the penalties of a single parameter are those stored")
    for k, (par, vs) in enumerate(pars):
        ctx.eq(values_of_scales(gs, par), vs, "the scales of a parameter are its grid values")
        for j in range(bins[k]):                       # fix one parameter: a slice of the grid
            r = np.asarray(gs.get_raw_stats(**{par.get_name(): vs[j]}), dtype=object)
            want = np.take(ssum, j, axis=k)
            ctx.check(r.shape == want.shape, "fixing one parameter gives the grid over the others")
            if r.shape == want.shape:
                ctx.eq(list(r.ravel()), list(want.ravel()), "fixing one parameter gives the grid over the others")
    ctx.eq(gs._stats, s, "reading leaves the statistics alone")
    ctx.eq(gs._penalty_terms, p, "reading leaves the penalties alone")
    # what was handed out may be changed without changing what is stored
    st += 1.
    ctx.eq(gs._stats, s, "reading leaves the statistics alone")
    raw += 1.
    ctx.eq(gs._stats, s, "reading leaves the statistics alone")
    names = [par.get_name() for par, vs in pars]
    kw = par_values(pars, indices(bins)[-1])
    for name in names:
        less = dict((k, v) for k, v in kw.items() if k != name)
        for f in (gs.get_penalty_at, gs.get_raw_stats_at):
            ctx.raises(KeyError, f, label="the value of every parameter is needed for a point", **less)
    x = gs.get_stat(indices(bins)[0])
    x = x + 1.
    ctx.eq(gs.get_stat(indices(bins)[0]), ssum[indices(bins)[0]] + p[indices(bins)[0]], "reading twice gives the same")


@case("C20", quick=[dict(bins=(3,), per_bin=()), dict(bins=(3, 2), per_bin=(2,))])
def close_values(ctx, bins, per_bin):
    """Reading back by value tells neighbouring grid points apart, however large the values."""
    c = ctx.load("echidna.core.config").GlobalFitConfig("fit", OrderedDict())
    pars = []
    for k, n in enumerate(bins):
        low, step = ctx.real("low%d" % k, 0, 1e7), ctx.real("step%d" % k, 0.01, 10)
        p = fit_par(ctx, "rate", low, low + (n - 1) * step, n, low, sigma=None, name="b%d_rate" % k)
        c.add_par(p, "spectra")
        pars.append((p, [low + i * step for i in range(n)]))
    gs = search(ctx, c, data_config(ctx, per_bin or (2,)), bool(per_bin), True)
    s, p = ctx.reals("s", tuple(bins) + tuple(per_bin)), ctx.reals("p", tuple(bins))
    gs.set_stats(s)
    gs.set_penalty_terms(p)
    ssum = bin_sum(s, per_bin)
    for i in indices(bins):
        kw = par_values(pars, i)
        ctx.eq(gs.get_penalty_at(**kw), p[i], "a penalty is read back by parameter values")
        ctx.eq(gs.get_raw_stats(**kw), ssum[i], "raw statistics are read back by parameter values")
        ctx.eq(asum(gs.get_raw_stats_at(**kw)), ssum[i], "raw statistics are read back by parameter values")


@case("C20", quick=[dict()])
def scales_of_a_parameter(ctx):
    """The scales reported are the grid of the parameter on its own scale."""
    fc, pars = grid_config(ctx, (2, 2))
    kw = dict(logscale=True) if ctx.choice("scale", ["log", "deviation"]) == "log" else dict(logscale_deviation=True)
    low, high = ctx.real("low", 0.5, 2), ctx.real("high", 5, 50)
    par = fit_par(ctx, "rate", low, high, 4, (low + high) / 2, sigma=None, name="log_rate", **kw)
    twin = fit_par(ctx, "rate", low, high, 4, (low + high) / 2, sigma=None, name="log_rate", **kw)
    fc.add_par(par, "spectra")
    gs = search(ctx, fc, data_config(ctx, (2,)), False, True)
    got, want = values_of_scales(gs, par), list(np.asarray(twin.get_values()).ravel())
    ctx.check(len(got) == 4, "the scales of a parameter are its grid values")
    for a, b in zip(got, want):
        ctx.eq(a, b, "the scales of a parameter are its grid values")


def values_of_scales(gs, par):
    return list(np.asarray(gs.get_scales(par.get_name())).ravel())


@case("C20", quick=GRID, thorough=BIG)
def write_one(ctx, bins, per_bin):
    gs, pars, s, p = filled(ctx, bins, per_bin)
    what = ctx.choice("what", ["stat", "penalty"])
    i = ctx.choice("where", indices(bins))
    new = ctx.reals("new", per_bin) if per_bin else ctx.real("new")
    if what == "stat":
        gs.set_stat(new if per_bin else np_mod(ctx).array(new), i)
        s[i] = new
    else:
        new = ctx.real("newp")
        gs.set_penalty_term(new, i)
        p[i] = new
    for j in indices(bins):
        ctx.eq(gs.get_raw_stat(j), s[j], "writing one grid point changes that one only")
        ctx.eq(gs.get_penalty_term(j), p[j], "writing one grid point changes that one only")


@case("C20", quick=GRID[:5])
def bad_requests(ctx, bins, per_bin):
    gs, pars, s, p = filled(ctx, bins, per_bin)
    n = len(bins)
    good = [0] * n
    bad = []
    for k in range(n):
        for v in (bins[k], bins[k] + 2, -1, -bins[k]):
            b = list(good)
            b[k] = v
            bad.append(tuple(b))
    bad += [tuple(good + [0])]
    if n > 1:
        bad += [tuple(good[:-1])]
    i = ctx.choice("indices", bad)
    x = ctx.reals("x", per_bin) if per_bin else np_mod(ctx).array(ctx.real("x"))
    for f, a in ((gs.get_stat, (i,)), (gs.get_penalty_term, (i,)), (gs.set_stat, (x, i)),
                 (gs.set_penalty_term, (ctx.real("y"), i))):
        ctx.raises(IndexError, f, *a, label="indices outside the grid are refused (%s)" % f.__name__)
    same(ctx, gs, s, p, "a refused request changes nothing")


def same(ctx, gs, s, p, label):
    ctx.check(gs._stats.shape == s.shape and gs._penalty_terms.shape == p.shape, label)
    if gs._stats.shape == s.shape and gs._penalty_terms.shape == p.shape:
        ctx.eq(gs._stats, s, label)
        ctx.eq(gs._penalty_terms, p, label)


@case("C20", quick=GRID[:5])
def bad_grids(ctx, bins, per_bin):
    gs, pars, s, p = filled(ctx, bins, per_bin)
    full = tuple(bins) + tuple(per_bin)
    wrong = [full + (1,), full[:-1] + (full[-1] + 1,), (full[0] + 1,) + full[1:]]
    if len(full) > 1:
        wrong.append(full[:-1])
    if full != full[::-1]:
        wrong.append(full[::-1])
    w = ctx.choice("shape", wrong)
    ctx.raises(ValueError, gs.set_stats, ctx.reals("w", w), label="a grid of statistics of another shape is refused")
    ctx.raises(TypeError, gs.set_stats, [1.] * full[0], label="statistics that are no array are refused")
    ctx.raises(TypeError, gs.set_penalty_terms, [1.] * full[0], label="penalties that are no array are refused")
    ctx.raises(TypeError, gs.set_stat, 1., tuple([0] * len(bins)), label="a statistic that is no array is refused")
    wrong = [tuple(bins) + (1,), tuple(bins)[:-1] + (bins[-1] + 1,)] + ([full] if per_bin else []) + \
            ([tuple(bins[:-1])] if len(bins) > 1 else []) + \
            ([tuple(bins[::-1])] if tuple(bins) != tuple(bins[::-1]) else [])
    w = ctx.choice("pshape", wrong)
    ctx.raises(ValueError, gs.set_penalty_terms, ctx.reals("v", w), label="a grid of penalties of another shape is refused")
    same(ctx, gs, s, p, "a refused request changes nothing")


@case("C20", quick=GRID, thorough=BIG)
def reset(ctx, bins, per_bin):
    gs, pars, s, p = filled(ctx, bins, per_bin)
    ctx.eq(gs.get_resets(), 0, "resets are counted")
    change = ctx.choice("then", ["nothing", "bins", "added"])
    nb = tuple(bins)
    if change == "bins":
        pars[0][0].set_par(bins=bins[0] + 1)
        nb = (bins[0] + 1,) + nb[1:]
    elif change == "added":
        gs.get_fit_config().add_par(fit_par(ctx, "shift", 0., 1., 4, 0.5, name="extra_shift"), "global")
        nb = nb + (4,)
    for k in (1, 2, 3):
        gs.reset_grids()
        ctx.eq(gs.get_resets(), k, "resets are counted")
        ctx.check(gs.get_name() == "gs_%d" % k, "the name counts the resets")
        ctx.check(gs._stats.shape == nb + tuple(per_bin), "a reset grid has the current shape of the fit")
        ctx.check(gs._penalty_terms.shape == nb, "a reset grid has the current shape of the fit")
        ctx.check(not np.asarray(gs._stats, dtype=float).any() and not np.asarray(gs._penalty_terms, dtype=float).any(),
                  "a reset grid is empty")
    x = ctx.reals("n", per_bin) if per_bin else np_mod(ctx).array(ctx.real("n"))
    last = tuple(n - 1 for n in nb)
    gs.set_stat(x, last)
    ctx.eq(gs.get_raw_stat(last), x, "a reset grid can be filled again")


@case("C20", quick=GRID, thorough=BIG)
def fresh(ctx, bins, per_bin):
    """A new search starts from empty grids of the fit's shape and is named after the configuration."""
    fc, pars = grid_config(ctx, bins, name="myfit")
    m = ctx.load("echidna.fit.minimise")
    gs = m.GridSearch(fc, data_config(ctx, per_bin or (2,)), per_bin=bool(per_bin))
    ctx.check(gs.get_name() == "myfit_results", "without a name the configuration's is used")
    ctx.check(gs._stats.shape == tuple(bins) + tuple(per_bin), "a new grid has the shape of the fit")
    ctx.check(gs._penalty_terms.shape == tuple(bins), "a new grid has the shape of the fit")
    ctx.check(not np.asarray(gs._stats, dtype=float).any() and not np.asarray(gs._penalty_terms, dtype=float).any(),
              "a new grid is empty")
    ctx.check(gs.get_fit_config() is fc, "the configuration is the one given")
    i = tuple(n - 1 for n in bins)
    ctx.eq(asum(gs.get_raw_stat(i)), 0., "a new grid is empty")


def keep(pars_names, kept):
    return [k for k, n in enumerate(pars_names) if n in kept]


def marginal(a, axes):
    """Sum over all axes not in axes, order kept."""
    out = np.empty(tuple(a.shape[k] for k in axes), dtype=object)
    for j in np.ndindex(*out.shape):
        out[j] = 0.
    for i in indices(a.shape):
        j = tuple(i[k] for k in axes)
        out[j] = out[j] + a[i]
    return out


def same_grid(ctx, got, want, label):
    got = np.asarray(got, dtype=object)
    ctx.check(got.shape == want.shape, label)
    if got.shape == want.shape:
        ctx.eq(list(got.ravel()), list(want.ravel()), label)


PROJ = [dict(bins=(3,), per_bin=(2,)), dict(bins=(2, 3), per_bin=(2,)), dict(bins=(2, 3), per_bin=(3, 2)),
        dict(bins=(2, 3, 2), per_bin=(2,)), dict(bins=(2,), per_bin=(2, 3, 2)), dict(bins=(2,), per_bin=(1, 2, 1, 2))]


@case("C20", quick=PROJ, thorough=[dict(bins=(3, 2, 2), per_bin=(2, 3))])
def projections(ctx, bins, per_bin):
    gs, pars, s, p = filled(ctx, bins, per_bin)
    fit = [x[0].get_name() for x in pars]
    spec = AXES[:len(per_bin)]
    names = fit + spec
    mask = ctx.choice("kept", list(range(1, 2 ** len(names))))
    kept = [n for k, n in enumerate(names) if mask >> k & 1]
    if ctx.choice("order", ["same", "reversed"]) == "reversed":
        kept = kept[::-1]
    got = gs.nd_project_stats(*kept)
    ssum = bin_sum(s, per_bin)
    if all(n in fit for n in kept):
        full = np.empty(ssum.shape, dtype=object)
        for i in indices(ssum.shape):
            full[i] = ssum[i] + p[i]
        same_grid(ctx, got, marginal(full, keep(fit, kept)),
                  "a projection on fit parameters sums the penalised statistic over the others")
    else:
        same_grid(ctx, got, marginal(s, keep(names, kept)),
                  "a projection on spectral parameters sums the raw statistic over the others")
    i = ctx.choice("where", indices(bins)) if len(indices(bins)) < 4 else indices(bins)[-2]
    got = gs.nd_project_stat(i, *kept)
    if all(n in fit for n in kept):
        ctx.eq(got, ssum[i] + p[i], "projecting one grid point on fit parameters gives its penalised statistic")
    else:
        same_grid(ctx, got, marginal(np.asarray(s[i], dtype=object), keep(spec, kept)),
                  "projecting one grid point on spectral parameters sums over the other dimensions")
    ctx.raises(IndexError, gs.nd_project_stats, label="an unknown parameter is refused", *(kept + ["nothing"]))
    ctx.raises(IndexError, gs.nd_project_stat, label="an unknown parameter is refused", *([i] + kept + ["nothing"]))
    same(ctx, gs, s, p, "projecting leaves the stored grids alone")


# -- C21 -------------------------------------------------------------------------------------------
@case("C21", quick=[dict(n=n) for n in (1, 2, 3)])
def summary(ctx, n):
    fc, pars = grid_config(ctx, (2, 3, 2)[:n])
    r = ctx.load("echidna.fit.fit_results")
    sc = data_config(ctx, (2,))
    res = r.FitResults(fc, sc)
    ctx.check(res.get_name() == "fit_results", "without a name the configuration's is used")
    ctx.check(r.FitResults(fc, sc, name="mine").get_name() == "mine", "the name is the one given")
    ctx.check(res.get_fit_config() is fc and res.get_spectra_config() is sc, "the configurations are those given")
    want = {}
    for k, (p, vs) in enumerate(pars):
        b, q = ctx.real("best%d" % k), ctx.real("pen%d" % k)
        p.set_best_fit(b)
        p.set_penalty_term(q)
        want[p.get_name()] = (b, q)
    got = res.get_summary()
    ctx.check(list(got) == [p.get_name() for p, _ in pars], "the summary lists every parameter once, in order")
    for k in want:
        ctx.check(got[k]["best_fit"] == want[k][0], "the summary holds the best fit")
        ctx.check(got[k]["penalty_term"] == want[k][1], "the summary holds the penalty")
        ctx.check(sorted(got[k]) == ["best_fit", "penalty_term"], "the summary holds the best fit and the penalty")
    x = ctx.real("again")
    pars[0][0].set_best_fit(x)
    ctx.eq(res.get_summary()["bkg_rate"]["best_fit"], x, "the summary follows the recorded results")
    f2, s2 = grid_config(ctx, (2,), name="other")[0], data_config(ctx, (3,))
    res.set_fit_config(f2)
    res.set_spectra_config(s2)
    ctx.check(res.get_fit_config() is f2 and res.get_spectra_config() is s2, "the configurations are those set")


def limit_results(ctx, scales, n, name=None):
    config = ctx.load("echidna.core.config")
    fc, pars = grid_config(ctx, (2, 3, 2)[:n])
    low, step = ctx.real("slow", 0, 10), ctx.real("sstep", 0.1, 10)
    rate = fit_par(ctx, "rate", low, low + (scales - 1) * step, scales, low)
    lc = config.SpectraFitConfig("signal_fit", OrderedDict(rate=rate), "signal")
    r = ctx.load("echidna.fit.fit_results")
    sc = data_config(ctx, (2,))
    return r.LimitResults(fc, sc, lc, name), pars, [low + i * step for i in range(scales)], (fc, sc, lc)


@case("C21", quick=[dict(scales=2, n=1), dict(scales=3, n=2), dict(scales=4, n=3)],
      thorough=[dict(scales=5, n=3)])
def limits(ctx, scales, n):
    res, pars, grid, (fc, sc, lc) = limit_results(ctx, scales, n)
    ctx.check(res.get_name() == "config_limit_results", "without a name the signal's configuration names the results")
    names = [p.get_name() for p, _ in pars]
    s = [ctx.real("s%d" % i) for i in range(scales)]
    b = [[ctx.real("b%d_%d" % (i, k)) for k in range(n)] for i in range(scales)]
    q = [[ctx.real("q%d_%d" % (i, k)) for k in range(n)] for i in range(scales)]
    zero = ctx.choice("order", ["forward", "backward"])
    objs = [object() for i in range(scales)]
    for i in (range(scales) if zero == "forward" else reversed(range(scales))):
        for k in range(n):
            res.set_penalty_term(i, q[i][k], names[k])
            res.set_best_fit(i, b[i][k], names[k])
        res.set_limit_stat(i, s[i])
        res.set_fit_result(i, objs[i])
    i = ctx.choice("changed", range(scales))
    k = ctx.choice("parameter", range(n))
    s[i], b[i][k], q[i][k] = ctx.real("s"), ctx.real("b"), ctx.real("q")
    res.set_limit_stat(i, s[i])
    res.set_best_fit(i, b[i][k], names[k])
    res.set_penalty_term(i, q[i][k], names[k])
    full = [s[j] + total(q[j]) for j in range(scales)]
    for j in range(scales):
        ctx.eq(res.get_limit_stat(j), s[j], "the statistic at a scaling is the one recorded")
        ctx.eq(res.get_full_stat(j), full[j], "the full statistic adds every penalty")
        ctx.eq(list(res.get_penalty_terms_at_scale(j)), q[j], "the penalties at a scaling are those recorded")
        for l in range(n):
            ctx.eq(res.get_best_fit(j, names[l]), b[j][l], "the best fit at a scaling is the one recorded")
            ctx.eq(res.get_penalty_term(j, names[l]), q[j][l], "the penalty at a scaling is the one recorded")
        ctx.check(res._fit_results[j] is objs[j], "the fit results at a scaling are those recorded")
    ctx.eq(list(res.get_stats()), s, "all statistics are those recorded")
    ctx.eq(list(res.get_full_stats()), full, "the full statistics add every penalty")
    for l in range(n):
        ctx.eq(list(res.get_best_fits(names[l])), [x[l] for x in b], "all best fits are those recorded")
        ctx.eq(list(res.get_penalty_terms(names[l])), [x[l] for x in q], "all penalties are those recorded")
    ctx.eq(list(np.asarray(res.get_scales()).ravel()), grid, "the scalings are the grid of the signal's rate")
    ctx.eq(list(res.get_stats()), s, "reading changes nothing")
    ctx.eq(res.get_full_stat(i), full[i], "reading changes nothing")


@case("C21", quick=[dict(scales=2, n=1, bins=(2,)), dict(scales=2, n=2, bins=(2, 2)), dict(scales=3, n=2, bins=(1,))],
      thorough=[dict(scales=4, n=3, bins=(3, 2))])
def limits_per_bin(ctx, scales, n, bins):
    """Statistics per bin, as get_limit records them: the full statistic sums the bins, then adds each penalty once."""
    res, pars, grid, cfg = limit_results(ctx, scales, n)
    res._stats = ctx.reals("s", (scales,) + bins)
    s = ctx.snapshot(res._stats)
    q = [[ctx.real("q%d_%d" % (i, k)) for k in range(n)] for i in range(scales)]
    for i in range(scales):
        for k in range(n):
            res.set_penalty_term(i, q[i][k], pars[k][0].get_name())
    i = ctx.choice("changed", range(scales))
    if ctx.choice("again", [False, True]):
        new = ctx.reals("new", bins)
        for b in indices(bins):
            s[(i,) + b] = new[b]
        res.set_limit_stat(i, new)
    full = [total(s[(j,) + b] for b in indices(bins)) + total(q[j]) for j in range(scales)]
    for how in ctx.choice("how", [("all", "one"), ("one", "all")]):
        if how == "all":
            got = res.get_full_stats()
            ctx.check(np.shape(got) == (scales,), "one full statistic per scaling")
            ctx.eq(list(got), full, "the full statistics add every penalty once")
        else:
            for j in range(scales):
                ctx.eq(res.get_full_stat(j), full[j], "the full statistic adds every penalty once")
    for j in range(scales):
        got = res.get_limit_stat(j)
        for b in indices(bins):
            ctx.eq(got[b], s[(j,) + b], "the statistic at a scaling is the one recorded")
            ctx.eq(res.get_stats()[(j,) + b], s[(j,) + b], "all statistics are those recorded")
        ctx.eq(list(res.get_penalty_terms_at_scale(j)), q[j], "the penalties at a scaling are those recorded")


@case("C21", quick=[dict(scales=3, n=2)])
def limits_bad(ctx, scales, n):
    res, pars, grid, cfg = limit_results(ctx, scales, n, "named")
    ctx.check(res.get_name() == "named", "the name is the one given")
    x = ctx.real("x")
    i = ctx.choice("index", [scales, scales + 2])
    for f, a in ((res.set_limit_stat, (i, x)), (res.set_best_fit, (i, x, "bkg_rate")),
                 (res.set_penalty_term, (i, x, "bkg_rate")), (res.set_fit_result, (i, None)),
                 (res.get_limit_stat, (i,)), (res.get_full_stat, (i,)), (res.get_best_fit, (i, "bkg_rate")),
                 (res.get_penalty_term, (i, "bkg_rate")), (res.get_penalty_terms_at_scale, (i,)),
                 (res.set_best_fit, (0, x, "nothing")), (res.set_penalty_term, (0, x, "nothing")),
                 (res.get_best_fit, (0, "nothing")), (res.get_penalty_term, (0, "nothing")),
                 (res.get_best_fits, ("nothing",)), (res.get_penalty_terms, ("nothing",))):
        ctx.refuses(f, *a, label="scalings and parameters that do not exist are refused (%s)" % f.__name__)
    for j in range(scales):
        ctx.eq(res.get_full_stat(j), 0., "a refused request changes nothing")
        for p, _ in pars:
            ctx.eq(res.get_best_fit(j, p.get_name()), 0., "a refused request changes nothing")
