"""C22: limit setting."""
import os
from collections import OrderedDict

import numpy as np

from engine.registry import case
from checks.common import Geo, indices, spectrum, state, same_state, total
from checks.minimise import asum, grid_config, np_mod
from checks.params import fit_par


class Fitter(object):
    """Stands for a Fit: its statistic is an arbitrary function of the signal's present number of decays."""

    def __init__(self, ctx, config, pars, scales, shape=(), tuples=False):
        self.ctx, self.config, self.pars = ctx, config, pars
        self.scales, self.tuples = scales, tuples
        self._signal = None
        self.visits = []
        self.data = self.fixed_background = self.floating_backgrounds = None
        self.stats, self.pens, self.bests = {}, {}, {}
        self.shape = shape
        for k in [None] + list(range(len(scales))):
            t = "z" if k is None else str(k)
            if k is not None and abs(scales[k]) < 1e-9:
                k0 = None                      # no signal at all
                self.stats[k], self.pens[k], self.bests[k] = self.stats[k0], self.pens[k0], self.bests[k0]
                continue
            self.stats[k] = ctx.reals("s" + t, shape, 0, 50) if shape else ctx.real("s" + t, 0, 50, isnp=True)
            self.pens[k] = [ctx.real("p%s_%d" % (t, j), 0, 20) for j in range(len(pars))]
            self.bests[k] = [vs[(len(t) + (k or 0) + j) % len(vs)] for j, (p, vs) in enumerate(pars)]
        self.results = None
        if pars:
            r = ctx.load("echidna.fit.minimise")
            from checks.minimise import data_config
            self.results = r.GridSearch(config, data_config(ctx, (2,)), name="fits")
        self.checked = 0

    def at(self):
        if self._signal is None:
            return None
        n = self._signal._num_decays
        for k, s in enumerate(self.scales):
            if abs(float(n) - s) < 1e-6:
                return k
        self.ctx.fail("fits are made at the scalings of the grid only", "at %s decays" % n)
        return None

    def fit(self):
        k = self.at()
        self.visits.append(k)
        for j, (p, vs) in enumerate(self.pars):
            p.set_best_fit(self.bests[k][j])
            p.set_penalty_term(self.pens[k][j])
        s = self.stats[k]
        s = s.copy() if self.shape else s
        return (s, total(self.pens[k])) if self.tuples else s

    def check_fit_config(self, signal):
        if not signal.get_fit_config():
            raise self.ctx.load("echidna.errors.custom_errors").CompatibilityError("no fit config")
        self.checked += 1

    def set_signal(self, signal, shrink=True):
        self._signal = signal
        self.shrunk = shrink

    def get_signal(self):
        return self._signal

    def remove_signal(self):
        self._signal = None

    def get_fit_config(self):
        return self.config

    def get_minimiser(self):
        return self.results

    def get_data(self):
        return self.data

    def get_fixed_background(self):
        return self.fixed_background

    def get_floating_backgrounds(self):
        return self.floating_backgrounds


def signal_spectrum(ctx, scales, logscale=False):
    config = ctx.load("echidna.core.config")
    kw = dict(logscale=True) if logscale else {}
    rate = fit_par(ctx, "rate", scales[0], scales[-1], len(scales), scales[0], sigma=None, **kw)
    fc = config.SpectraFitConfig("sig_fit", OrderedDict(rate=rate), "sig")
    return spectrum(ctx, [Geo("energy_mc", 0., 1., 2)], num_decays=7., name="sig_mc", fit_config=fc,
                    data=ctx.reals("d", (2,), 0, 10))


def setup(ctx, scales, n=0, shape=(), tuples=None, logscale=False, shrink=False):
    fc, pars = grid_config(ctx, (2, 3)[:n], sigmas=[None, ctx.real("sigma", 0.1, 5)][:n])
    f = Fitter(ctx, fc, pars, scales, shape, bool(n) if tuples is None else tuples)
    sig = signal_spectrum(ctx, scales, logscale)
    kw = ctx.choice("shrink", [{}, dict(shrink=True), dict(shrink=False)]) if shrink else {}
    lim = ctx.load("echidna.limit.limit").Limit(sig, f, **kw)
    ctx.check(f.get_signal() is sig and f.checked == 1, "the signal given is the one fitted, after a check")
    ctx.check(f.shrunk is kw.get("shrink", True), "the signal is shrunk to the region of interest unless told not to")
    return lim, f, sig, pars


GRIDS = dict(small=[0., 0.0005, 0.001], zero=[0., 5., 10.], one=[5., 10., 15.], four=[0., 5., 10., 15.], five=[2., 4., 6., 8., 10.])

CASES = [dict(grid="zero", n=0, shape=(), least=False), dict(grid="small", n=0, shape=(), least=True), dict(grid="one", n=0, shape=(), least=True),
         dict(grid="zero", n=1, shape=(), least=False), dict(grid="one", n=2, shape=(), least=False),
         dict(grid="zero", n=2, shape=(), least=True), dict(grid="zero", n=1, shape=(2,), least=False),
         dict(grid="one", n=0, shape=(2,), least=True), dict(grid="zero", n=0, shape=(2, 2), least=False),
         dict(grid="four", n=1, shape=(), least=False)]


@case("C22", quick=CASES, thorough=[dict(grid="five", n=1, shape=(), least=l) for l in (True, False)] +
      [dict(grid="four", n=2, shape=(2,), least=False)], budget=120)
def limit(ctx, grid, n, shape, least):
    scales = GRIDS[grid]
    lim, f, sig, pars = setup(ctx, scales, n, shape)
    threshold = ctx.real("limit", 0.5, 20)
    kw, base = {}, f.stats[None]
    if least:
        base = ctx.reals("m", shape, 0, 20) if shape else ctx.real("m", 0, 20)
        kw["min_stat"] = base.copy() if shape else base
    tot = [asum(f.stats[k] - base) + total(f.pens[k]) for k in range(len(scales))]
    err = ctx.load("echidna.errors.custom_errors").LimitError
    got = None
    try:
        got = lim.get_limit(threshold, store_limit=False, **kw)
    except err:
        pass
    if not least:
        ctx.check(f.visits[:1] == [None], "the fit without signal comes first")
    want = [None if abs(s) < 1e-9 else k for k, s in enumerate(scales)]
    ctx.check(f.visits[0 if least else 1:] == want, "every scaling is fitted once, in order")
    # the statistic is searched from its (first) minimum on
    low = 0
    for k in range(1, len(scales)):
        if tot[k] < tot[low]:
            low = k
    over = None
    for k in range(low, len(scales)):
        if tot[k] > threshold:
            over = k
            break
    if over is None:
        ctx.check(got is None, "without a scaling over the threshold a limit error is raised")
    else:
        ctx.check(got is not None, "a scaling over the threshold gives a limit")
        if got is not None:
            ctx.eq(got, scales[over], "the limit is the first scaling over the threshold above the minimum")
    # what is kept of the scan
    r = lim._limit_results
    for k in range(len(scales)):
        ctx.eq(r.get_limit_stat(k), f.stats[k] - base, "the scan keeps the statistic of every scaling")
        ctx.eq(r.get_full_stat(k), tot[k], "the full statistic of a scaling adds its penalties")
        ctx.eq(r.get_full_stats()[k], tot[k], "the full statistic of a scaling adds its penalties")
        for j, (p, vs) in enumerate(pars):
            ctx.eq(r.get_best_fit(k, p.get_name()), f.bests[k][j], "the scan keeps the best fits of every scaling")
            ctx.eq(r.get_penalty_term(k, p.get_name()), f.pens[k][j], "the scan keeps the penalties of every scaling")
    ctx.check(not ctx.loader.fs.files, "nothing is stored unless asked for")


@case("C22", quick=[dict(which=w) for w in ("zero", "number")])
def given_minimum(ctx, which):
    """A minimum that is given is used, also when it is zero."""
    scales = GRIDS["one"]
    lim, f, sig, pars = setup(ctx, scales)
    m = ctx.choice("zero", [0., 0]) if which == "zero" else ctx.real("m", 0, 9)
    for k in range(3):
        ctx.assume(f.stats[k] - m > 1.)
    for k in (1, 2):
        ctx.assume(f.stats[k] > f.stats[k - 1])
    ctx.eq(lim.get_limit(1., min_stat=m, store_limit=False), scales[0],
           "the given minimum is the one subtracted")
    for k in range(3):
        ctx.eq(lim._limit_results.get_limit_stat(k), f.stats[k] - m, "the given minimum is the one subtracted")


@case("C22", quick=[dict(grid="one"), dict(grid="zero")])
def shared_fitter(ctx, grid):
    """Limits on two signals with the same fitter; each fits its own signal."""
    scales = GRIDS[grid]
    lim, f, sig, pars = setup(ctx, scales)
    other = signal_spectrum(ctx, scales)
    other._num_decays = 9.
    late = ctx.load("echidna.limit.limit").Limit(other, f)
    used, real = [], f.fit

    def fit():
        used.append(f.get_signal())
        return real()
    f.fit = fit
    for k in range(len(scales)):
        ctx.assume(f.stats[k] >= f.stats[None])
        if k:
            ctx.assume(f.stats[k] > f.stats[k - 1])
    m = f.stats[None] if ctx.choice("least", [True, False]) else None
    ctx.assume(f.stats[len(scales) - 1] - f.stats[None] > 3.)
    label = "every fit for a limit is made with the signal of that limit"
    for l, mine in [[(lim, sig), (late, other)], [(late, other), (lim, sig)], [(lim, sig), (lim, sig)]][
            ctx.choice("order", [0, 1, 2])]:
        del used[:]
        kw = {} if m is None else dict(min_stat=m)
        theirs = other if mine is sig else sig
        before = state(ctx, theirs)
        got = l.get_limit(3., store_limit=False, **kw)
        ctx.check(all(u is mine or u is None for u in used), label)
        k = [i for i in range(len(scales)) if f.stats[i] - f.stats[None] > 3.]
        ctx.eq(got, scales[k[0]], label)
        same_state(ctx, theirs, before, "a limit leaves the signal of another one alone")


@case("C22", quick=[dict()])
def fine_grid(ctx):
    """A logarithmic grid, and a scan done twice."""
    lo, hi, nb = 1., 8., 4
    scales = [2. ** k for k in range(nb)]
    lim, f, sig, pars = setup(ctx, scales, logscale=True)
    for k in range(1, nb):
        ctx.assume(f.stats[k] >= f.stats[k - 1])
    ctx.assume(f.stats[0] == f.stats[None])
    t = ctx.real("limit", 0.5, 20)
    ctx.assume(f.stats[nb - 1] - f.stats[None] > t)
    a = lim.get_limit(t, store_limit=False)
    k = [i for i in range(nb) if abs(float(a) - scales[i]) < 1e-6]
    ctx.check(len(k) == 1, "the limit is a scaling of the grid")
    if len(k) != 1:
        return
    ctx.check(f.stats[k[0]] - f.stats[None] > t, "the limit is over the threshold")
    ctx.check(f.stats[k[0] - 1] - f.stats[None] <= t if k[0] else True, "the scaling before is not over the threshold")
    ctx.eq(lim.get_limit(t, store_limit=False), a, "scanning again gives the same limit")


@case("C22", quick=[dict(grid="zero", n=0), dict(grid="one", n=1), dict(grid="zero", n=2)], budget=120)
def rescan(ctx, grid, n):
    """The same limit setter is used again after the fit changed (new data, say)."""
    scales = GRIDS[grid]
    lim, f, sig, pars = setup(ctx, scales, n)
    err = ctx.load("echidna.errors.custom_errors").LimitError
    try:
        lim.get_limit(ctx.choice("first", [0.5, 1e6]), store_limit=False, store_fits=ctx.choice("fits", [True, False]))
    except err:
        pass
    for k in [None] + list(range(len(scales))):
        if k is not None and abs(scales[k]) < 1e-9:
            f.stats[k], f.pens[k], f.bests[k] = f.stats[None], f.pens[None], f.bests[None]
            continue
        f.stats[k] = ctx.real("again%s" % k, 0, 50, isnp=True)
        f.pens[k] = [ctx.choice("pen%s_%d" % (k, j), [0., 3.5]) if j == 0 and k in (0, 1) else 0.
                     for j in range(len(pars))]
        f.bests[k] = [vs[(0 if k is None else k + 1) % len(vs)] for p, vs in pars]
    for k in range(len(scales)):
        ctx.assume(f.stats[k] >= f.stats[None])
        if k:
            ctx.assume(f.stats[k] > f.stats[k - 1] + 4)
    t = ctx.real("limit", 0.5, 20)
    tot = [f.stats[k] - f.stats[None] + total(f.pens[k]) for k in range(len(scales))]
    ctx.assume(tot[-1] > t)
    got = lim.get_limit(t, store_limit=False)
    over = [k for k in range(len(scales)) if tot[k] > t][0]
    ctx.eq(got, scales[over], "scanning again gives the limit of the present fit")
    r = lim._limit_results
    for k in range(len(scales)):
        ctx.eq(r.get_limit_stat(k), f.stats[k] - f.stats[None], "scanning again keeps the present statistics")
        ctx.eq(r.get_full_stat(k), tot[k], "scanning again keeps the present statistics")
        for j, (p, vs) in enumerate(pars):
            ctx.eq(r.get_best_fit(k, p.get_name()), f.bests[k][j], "scanning again keeps the present best fits")
            ctx.eq(r.get_penalty_term(k, p.get_name()), f.pens[k][j], "scanning again keeps the present penalties")


@case("C22", quick=[dict(n=3, shape=()), dict(n=4, shape=()), dict(n=3, shape=(2,)), dict(n=2, shape=(2, 2))],
      thorough=[dict(n=6, shape=()), dict(n=5, shape=(3,))])
def array_limit(ctx, n, shape):
    scales = [5. * (k + 1) for k in range(n)]
    lim, f, sig, pars = setup(ctx, scales)
    a = ctx.reals("a", (n,) + shape, -20, 50)
    old = ctx.snapshot(a)
    default = ctx.choice("default", [True, False])
    t = 2.71 if default else ctx.real("limit", 0, 20)
    err = ctx.load("echidna.errors.custom_errors")
    got = None
    try:
        got = lim.get_array_limit(a) if default else lim.get_array_limit(a, t)
    except err.LimitError:
        pass
    over = None
    for k in range(n):
        if asum(old[k]) > t:
            over = k
            break
    if over is None:
        ctx.check(got is None, "without an entry over the threshold a limit error is raised")
    else:
        ctx.check(got is not None, "an entry over the threshold gives a limit")
        if got is not None:
            ctx.eq(got, scales[over], "the limit is the scaling of the first entry over the threshold")
    ctx.eq(a, old, "the array is not modified")
    wrong = ctx.choice("length", [n - 1, n + 1])
    ctx.raises(err.CompatibilityError, lim.get_array_limit, ctx.reals("w", (wrong,) + shape, 100, 200), t,
               label="an array of another length is refused")
    ctx.check(not f.visits, "no fit is made for an array")


@case("C22", quick=[dict(grid="zero"), dict(grid="one"), dict(grid="small")])
def statistics(ctx, grid):
    scales = GRIDS[grid]
    lim, f, sig, pars = setup(ctx, scales, shrink=True)
    f.shrunk = False
    got = lim.get_statistics()
    ctx.check(not f.shrunk, "the signal is not shrunk again for its scalings")
    ctx.check(len(got) == len(scales), "there is one statistic per scaling")
    for k in range(len(scales)):
        ctx.eq(got[k], f.stats[k], "the statistics are those of the scalings, in order")


@case("C22", quick=[dict()])
def no_fit_config(ctx):
    lim = ctx.load("echidna.limit.limit")
    fc, pars = grid_config(ctx, ())
    f = Fitter(ctx, fc, [], [1., 2.])
    s = spectrum(ctx, [Geo("energy_mc", 0., 1., 2)], name="sig_mc")
    err = ctx.load("echidna.errors.custom_errors").CompatibilityError
    ctx.raises(err, lim.Limit, s, f, label="a signal without a rate to scan is refused")


@case("C22", quick=[dict(n=1, found=True), dict(n=1, found=False), dict(n=0, found=True)])
def stored(ctx, n, found):
    scales = GRIDS["one"]
    lim, f, sig, pars = setup(ctx, scales, n)
    flat = not found and ctx.choice("flat", [False, True])    # a signal that makes no difference
    for k in range(3):
        ctx.assume(f.stats[k] == (1. if flat else 1. + k))
        for p in f.pens[k]:
            ctx.assume(p == (0. if flat else 1.))
    ctx.assume(f.stats[None] == 1.)
    fname = ctx.choice("file", ["out.hdf5", "out", "out.hdf5.v2", None])
    fits = ctx.choice("fits", [True, False])
    err = ctx.load("echidna.errors.custom_errors").LimitError
    threshold = 1.5 if found else 30.
    try:
        lim.get_limit(threshold, limit_fname=fname, store_fits=fits)
        ctx.check(found, "without a scaling over the threshold a limit error is raised")
    except err:
        ctx.check(not found, "a scaling over the threshold gives a limit")
    files = list(ctx.loader.fs.files)
    if fname:
        ctx.check(files == [fname if fname.endswith(".hdf5") else fname + ".hdf5"], "the results of the scan are stored in the file asked for")
    else:
        name = os.path.basename(files[0]) if files else ""
        ctx.check(len(files) == 1 and files[0] == ctx.load("echidna.output").__default_save_path__ + "/" + name and
                  name.startswith(lim._limit_results.get_name()),
                  "the results of the scan are stored under their name when no file is given")
    if not files:
        return
    back = ctx.load("echidna.output.store").load_limit_results(files[0])
    for k in range(3):
        ctx.eq(back.get_limit_stat(k), lim._limit_results.get_limit_stat(k), "the stored scan is the one made")
        for j, (p, vs) in enumerate(pars):
            ctx.eq(back.get_best_fit(k, p.get_name()), f.bests[k][j], "the stored scan is the one made")
            ctx.eq(back.get_penalty_term(k, p.get_name()), f.pens[k][j], "the stored scan is the one made")
            if fits:
                ctx.eq(lim._limit_results._fit_results[k].get_summary()[p.get_name()]["best_fit"], f.bests[k][j],
                       "the fit results kept for a scaling are those of that scaling")
        ctx.check(fits or lim._limit_results._fit_results[k] is None, "the fit results are kept only when asked for")


@case("C22", quick=[dict(found=True), dict(found=False)])
def spectra_stored(ctx, found):
    """Storing the spectra used, whether or not a limit is found."""
    scales = GRIDS["one"]
    lim, f, sig, pars = setup(ctx, scales, 1)
    for k in range(3):
        ctx.assume(f.stats[k] == 1. + k)
        ctx.assume(f.pens[k][0] == 1.)
    ctx.assume(f.stats[None] == 1.)

    def one(name):
        return spectrum(ctx, [Geo("energy_mc", 0., 1., 2)], num_decays=7., name=name + "_mc", prefix=name)
    f.data, f.fixed_background = one("data"), one("fixed")
    f.floating_backgrounds = [one("a"), one("b")] if ctx.choice("floating", [True, False]) else None
    err = ctx.load("echidna.errors.custom_errors").LimitError
    try:
        lim.get_limit(1.5 if found else 30., limit_fname="out", store_limit=ctx.choice("store", [True, False]),
                      store_spectra=True)
        ctx.check(found, "without a scaling over the threshold a limit error is raised")
    except err:
        ctx.check(not found, "a scaling over the threshold gives a limit")
    store = ctx.load("echidna.output.store")
    got, path = {}, {}
    for n, h in ctx.loader.fs.files.items():
        for g in h:
            if g != "limit_results":
                s = store.load(n, group_name=g)
                got[s.get_name()] = s
                path[s.get_name()] = n
    base = ctx.load("echidna.output").__default_save_path__ + "/"
    kinds = [(f.data, "data"), (f.fixed_background, "fixed"), (sig, "signal")]
    for s, kind in kinds + [(b, "float") for b in f.floating_backgrounds or []]:
        ctx.check(s.get_name() in got, "the spectra used are stored when asked for")
        ctx.check(path.get(s.get_name()) == base + s.get_name() + "_" + kind + ".hdf5",
                  "each spectrum used is stored in a file of its own")
        if s.get_name() in got:
            ctx.eq(got[s.get_name()]._data, s._data, "the spectra used are stored when asked for")
