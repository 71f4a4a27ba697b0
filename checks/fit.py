"""C23, C24: what a fit compares, and what setting it up does."""
from collections import OrderedDict

import numpy as np

from engine.registry import case
from checks.common import Geo, arr_total, geometry, indices, same_state, spectrum, state, total
from checks.params import fit_par


def capture(ctx, seen, per_bin, base="BakerCousinsChi"):
    """A test statistic that records what it compares; its value is a fixed function of both."""
    b = getattr(ctx.load("echidna.fit.test_statistic"), base)

    def record(observed, expected):
        seen.append(([x for x in np.asarray(observed)], [x for x in np.asarray(expected)]))

    class Statistic(b):
        def _compute(self, observed, expected):
            record(observed, expected)
            return total(2. * o + 3. * e for o, e in zip(observed, expected))

        def _get_stats(self, observed, expected):
            record(observed, expected)
            return ctx.arr([2. * o + 3. * e for o, e in zip(observed, expected)])
    return Statistic(per_bin=per_bin)


class Visits(object):
    """A minimiser that evaluates the function at a given sequence of points."""

    def __init__(self, points, per_bin):
        self.points, self._per_bin, self.got = points, per_bin, []

    def get_name(self):
        return "visits"

    def minimise(self, funct, test_statistic):
        self.got = [funct(*p) for p in self.points]
        return self.got


# -- what the harness knows about arrays ---------------------------------------------------------------
def moved(a, k):
    """Contents moved by k bins along the first axis."""
    r = np.empty(a.shape, dtype=object)
    for i in indices(a.shape):
        j = (i[0] - k,) + i[1:]
        r[i] = a[j] if 0 <= j[0] < a.shape[0] else 0.
    return r


def merged(a, shape):
    r = np.empty(shape, dtype=object)
    f = [m // n for m, n in zip(a.shape, shape)]
    for i in indices(shape):
        r[i] = total(a[tuple(i[d] * f[d] + j[d] for d in range(len(shape)))] for j in indices(f))
    return r


def times(a, k):
    r = np.empty(a.shape, dtype=object)
    for i in indices(a.shape):
        r[i] = a[i] * k
    return r


def plus(a, b):
    r = np.empty(a.shape, dtype=object)
    for i in indices(a.shape):
        r[i] = a[i] + b[i]
    return r


def onto(a, keep):
    """Marginal over the axes in keep, as a list in C order."""
    shape = [a.shape[d] for d in keep]
    return [total(a[i] for i in indices(a.shape) if all(i[d] == k for d, k in zip(keep, ks))) for ks in indices(shape)]


LOW, HIGH, ROI = 0., 6., (2., 6.)          # energy; the ROI keeps its upper two thirds


# what each kind of parameter can be set to: (values of its grid)
GRID = dict(rate=[0., 10., 20.], shift=[-1., 0., 1.], resolution=[0.125, 0.25, 0.375], scale=[0.75, 1., 1.25])


def geos(ctx, energy_bins, radial, kind="mc", rkind=None):
    g = [Geo("energy_" + kind, LOW, (HIGH - LOW) / energy_bins, energy_bins)]
    if radial:
        g.append(Geo("radial_" + (rkind or kind), 0., 0.5, radial))
    return g


def kept(a, roi=ROI):
    """Contents in the energy ROI (radial is kept whole)."""
    n = a.shape[0]
    w = (HIGH - LOW) / n
    lo, hi = int(round((roi[0] - LOW) / w)), int(round((roi[1] - LOW) / w))
    return np.array(np.asarray(a, dtype=object)[lo:hi], dtype=object)


def contents(ctx, name, gs, positive=False):
    if positive == "fixed":                     # known numbers: the interpolation of axis scaling is costly
        shape = tuple(g.bins for g in gs)
        return ctx.arr(np.array([1. + (3 * k + len(name)) % 7 for k in range(int(np.prod(shape)))]).reshape(shape))
    return ctx.reals(name, tuple(g.bins for g in gs), 0.125 if positive else 0, 100)


def smeared(ctx, a, res, radial, kind="mc"):
    """The real smearing (decided by C15) of contents a over the ROI."""
    gs = [Geo("energy_" + kind, ROI[0], (ROI[1] - ROI[0]) / a.shape[0], a.shape[0])]
    if radial:
        gs.append(Geo("radial_" + kind, 0., 0.5, radial))
    s = spectrum(ctx, gs, data=ctx.arr(a))
    sm = ctx.load("echidna.core.smear").EnergySmearRes()
    sm.set_resolution(res)
    return np.array(np.asarray(sm.weighted_smear(s, "energy_" + kind)._data, dtype=object), dtype=object)


def scaled_axis(ctx, a, factor, radial):
    """The real axis scaling (decided by C14) of contents a over the ROI."""
    gs = [Geo("energy_mc", ROI[0], (ROI[1] - ROI[0]) / a.shape[0], a.shape[0])]
    if radial:
        gs.append(Geo("radial_mc", 0., 0.5, radial))
    s = spectrum(ctx, gs, data=ctx.arr(a))
    sc = ctx.load("echidna.core.scale").Scale()
    sc.set_scale_factor(factor)
    return np.array(np.asarray(sc.scale(s, "energy_mc")._data, dtype=object), dtype=object)


def convolve(ctx, a, kind, value, radial):
    if kind == "shift":
        w = (ROI[1] - ROI[0]) / a.shape[0]
        return moved(a, int(round(value / w)))
    if kind == "scale":
        return scaled_axis(ctx, a, value, radial)
    return smeared(ctx, a, value, radial)


class Setup(object):
    def __init__(self, ctx, floats, fixed=1, signal=False, glob=(), radial=0, roi_radial=True, data_kind="mc",
                 fine=False, per_bin=False, single=False, base="BakerCousinsChi", minimiser=None, priors=False,
                 grid=GRID, known=False, types={}):
        fit = ctx.load("echidna.fit.fit")
        config = ctx.load("echidna.core.config")
        self.ctx, self.radial, self.single, self.per_bin, self.base = ctx, radial, single, per_bin, base
        self.glob, self.floats, self.data_kind = glob, floats, data_kind
        self.sym_priors, self.grid = priors, grid
        positive = "fixed" if known or "scale" in glob else fine
        eb = 12 if fine == "both" else 6            # energy bins of backgrounds
        nb = 3 if not fine else eb
        self.shape = (2,) + ((radial,) if radial else ())
        self.keep = [0, 1] if radial and roi_radial else [0]
        typed = lambda role: types.get(role, (data_kind if role == "data" else "mc", None))
        dg = geos(ctx, 3, radial, *typed("data"))
        self.data_in = contents(ctx, "data", dg)
        self.data = spectrum(ctx, dg, data=self.data_in.copy(), name="data_" + data_kind)
        self.fixed_in, self.fixed = [], OrderedDict()
        for k in range(fixed):
            g = geos(ctx, 3, radial, *typed("fixed"))
            a = contents(ctx, "fix%d" % k, g)
            n, want = ctx.real("nfix%d" % k, 1, 100), ctx.real("rfix%d" % k, 0, 100)
            s = spectrum(ctx, g, data=a.copy(), num_decays=n, name="fix%d_mc" % k)
            self.fixed[s] = want
            self.fixed_in.append((a, n, want))
        self.pars = OrderedDict()                   # full name -> (parameter, kind, owner)
        self.priors, self.sigmas = {}, {}
        fc = config.GlobalFitConfig("global", OrderedDict())
        for kind in glob:
            p = self.par(kind, "energy_mc_" + kind)
            fc.add_par(p, "global")
            self.pars["energy_mc_" + kind] = (p, kind, None)
        self.floating, self.float_in = [], []
        for k, kinds in enumerate(floats):
            g = geos(ctx, nb, radial, *typed("floating%d" % k))
            a = contents(ctx, "flt%d" % k, g, positive)
            n = ctx.real("nflt%d" % k, 1, 100)
            own = OrderedDict()
            for kind in kinds:
                pn = "rate" if kind == "rate" else "energy_mc_" + kind
                own[pn] = self.par(kind, pn, "flt%d_" % k)
                self.pars["flt%d_mc_%s" % (k, pn)] = (own[pn], kind, k)
            sfc = config.SpectraFitConfig("flt%d_fit" % k, own, "flt%d_mc" % k) if kinds else None
            self.floating.append(spectrum(ctx, g, data=a.copy(), num_decays=n, name="flt%d_mc" % k, fit_config=sfc))
            self.float_in.append((a, n))
        self.signal = None
        if signal:
            g = geos(ctx, 3 if not glob else nb, radial, *typed("signal"))
            self.sig_in = contents(ctx, "sig", g, positive)
            self.signal = spectrum(ctx, g, data=self.sig_in.copy(), num_decays=ctx.real("nsig", 1, 100), name="sig_mc")
        self.roi = {"energy": ROI}
        if len(self.keep) > 1:
            self.roi["radial"] = (0., 0.5 * radial)
        self.seen = []
        self.ts = capture(ctx, self.seen, per_bin, base)
        self.fc = fc
        self.fixed_before = [(s, state(ctx, s)) for s in self.fixed]
        self.fit = fit.Fit(self.roi, self.ts, fit_config=fc, data=self.data, fixed_backgrounds=self.fixed or None,
                           floating_backgrounds=self.floating or None, signal=self.signal, per_bin=per_bin,
                           single_bin=single, minimiser=minimiser)

    def par(self, kind, name, prefix=""):
        grid = self.grid[kind]
        prior = self.ctx.real(prefix + kind + "_prior", -20, 20) if self.sym_priors else grid[1] + 0.25
        sigma = None if kind == "resolution" else self.ctx.real(prefix + kind + "_sigma", 0.1, 10)
        p = fit_par(self.ctx, kind, grid[0], grid[-1], len(grid), prior, sigma=sigma, name=name)
        self.priors[id(p)], self.sigmas[id(p)] = prior, sigma
        return p

    def point(self, which):
        """Values for every parameter of the fit, in the order of the configuration."""
        values = {}
        for j, (name, (p, kind, owner)) in enumerate(self.pars.items()):
            values[name] = self.grid[kind][(which + j * (which + 1)) % 3]
        return values

    def listed(self):
        return list(self.fc.get_pars())

    def expected(self, values):
        ctx = self.ctx
        out = None
        for a, n, want in self.fixed_in:
            e = times(kept(a), want / n)
            out = e if out is None else plus(out, e)
        for k, (a, n) in enumerate(self.float_in):
            e = kept(a)
            for kind in self.glob:
                e = convolve(ctx, e, kind, values["energy_mc_" + kind], self.radial)
            for kind in self.floats[k]:
                v = values["flt%d_mc_%s" % (k, "rate" if kind == "rate" else "energy_mc_" + kind)]
                if kind == "rate":
                    e, n = times(e, v / n), v
                    if v == 0:
                        n = 1.
                else:
                    e = convolve(ctx, e, kind, v, self.radial)
            e = merged(e, self.shape)
            out = e if out is None else plus(out, e)
        if self.signal is not None and self.fit.get_signal() is not None:
            e = kept(self.sig_in)
            for kind in self.glob:
                e = convolve(ctx, e, kind, values["energy_mc_" + kind], self.radial)
            out = plus(out, merged(e, self.shape))
        return onto(out, self.keep)

    def observed(self):
        return onto(kept(self.data_in), self.keep)

    def penalty(self, values):
        t = 0.
        for name, (p, kind, owner) in self.pars.items():
            s = self.sigmas[id(p)]
            if s is not None:
                d = (values[name] - self.priors[id(p)]) / s
                t = t + (d * d / 2 if self.base in ("BakerCousinsLL", "ExtendedLL") else d * d)
        return t

    def statistic(self, o, e):
        per = [2. * x + 3. * y for x, y in zip(o, e)]
        return per if self.per_bin else total(per)

    def compare(self, values, seen, result):
        ctx = self.ctx
        o, e = self.observed(), self.expected(values)
        if self.single:
            o, e = [total(o)], [total(e)]
        ctx.eq(seen[0], o, "the data compared are those of the region of interest")
        ctx.eq(seen[1], e, "the expectation is fixed + every floating background + signal at the parameter values")
        if result is None:
            return
        stat, pen = result
        if self.per_bin:
            ctx.check(tuple(np.shape(stat)) == self.shape, "per-bin statistics have the shape of the data")
            ctx.eq(list(np.asarray(stat, dtype=object).ravel()), self.statistic(o, e),
                   "the statistic is that of data against the expectation")
        else:
            ctx.eq(stat, self.statistic(o, e), "the statistic is that of data against the expectation")
        ctx.eq(pen, self.penalty(values), "the penalty is the sum over the parameters with a width")


EXPECT = [
    dict(floats=(("rate",),), fixed=0, priors=True),
    dict(floats=(("rate",), ("rate",)), fixed=2, signal=True),
    dict(floats=(("rate",), ("rate",), ()), fixed=1, radial=2),
    dict(floats=(("rate",), ("rate",)), fixed=1, radial=2, roi_radial=False, signal=True),
    dict(floats=(("rate", "shift"),), fixed=1, fine=True),
    dict(floats=(("shift", "rate"), ("rate", "resolution")), fixed=0, fine=True, signal=True),
    dict(floats=(("rate",),), fixed=1, glob=("shift",), fine=True, signal=True),
    dict(floats=(("rate",), ("rate",)), fixed=1, glob=("shift", "resolution"), fine=True, signal=True),
    dict(floats=(("rate", "shift"), ()), fixed=0, glob=("resolution", "shift"), fine=True, signal=True),
    dict(floats=(("rate",),), fixed=1, glob=("shift",), fine=True, signal=True, radial=2),
    dict(floats=(("rate",), ("rate",)), fixed=1, per_bin=True, signal=True, radial=2),
    dict(floats=(("rate",), ("rate",)), fixed=1, single=True, signal=True, base="BakerCousinsLL"),
    dict(floats=(("rate",),), fixed=1, single=True, signal=True, radial=2),
    dict(floats=(("rate",),), fixed=1, signal=True, data_kind="reco", base="Pearson"),
    dict(floats=(("rate",), ("rate",)), fixed=1, signal=True, radial=2,
         types=dict(data=("mc", "mc"), signal=("mc", "reco"), fixed=("reco", "mc"), floating1=("truth", "reco"))),
    dict(floats=(("rate",), ("rate",)), fixed=1, signal=True, radial=2, roi_radial=False,
         types=dict(data=("reco", "truth"), signal=("mc", "truth"), fixed=("reco", "mc"), floating0=("mc", "reco"))),
]


QUICK = len(EXPECT) + 1
EXPECT += [
    dict(floats=(("rate",),), fixed=1, glob=("scale",), fine=True, signal=True),
    dict(floats=(("rate", "shift"), ("rate",), ("shift",)), fixed=2, glob=("shift",), fine="both", signal=True),
    dict(floats=(("rate", "resolution"), ("rate",)), fixed=2, glob=("resolution", "shift"), fine="both", signal=True),
    dict(floats=(("rate",), ("rate",), ("rate",)), fixed=3, signal=True, radial=3, priors=True),
    dict(floats=(("rate", "shift"), ("rate", "shift")), fixed=1, glob=("shift", "resolution"), fine=True, radial=2,
         signal=True),
    dict(floats=(("rate", "shift"), ("rate",)), fixed=1, glob=("shift",), fine=True, radial=2, per_bin=True,
         signal=True, base="ExtendedLL"),
    dict(floats=(("rate",),), fixed=1, glob=("scale", "shift"), fine=True, signal=True),
]


@case("C23", quick=[dict(cfg=k) for k in range(QUICK)], thorough=[dict(cfg=k) for k in range(QUICK, len(EXPECT))],
      budget=120)
def expectation(ctx, cfg):
    m = Visits([], EXPECT[cfg].get("per_bin", False))
    su = Setup(ctx, minimiser=m, **EXPECT[cfg])
    ctx.check(sorted(su.listed()) == sorted(su.pars), "every parameter of the fit is listed")
    if sorted(su.listed()) != sorted(su.pars):
        return
    # visited in this order, some of them twice
    points = [su.point(k) for k in (2, 0, 1, 0, 2)]
    m.points = [[v[n] for n in su.listed()] for v in points]
    before = [(s, state(ctx, s)) for s in su.floating + [su.data] + ([su.signal] if su.signal else [])]
    su.fit.fit()
    ctx.check(len(su.seen) == len(points), "one comparison is made per set of values")
    for v, s, r in zip(points, su.seen, m.got):
        su.compare(v, s, r)
    for s, old in before:
        same_state(ctx, s, old, "running the fit leaves its spectra alone", skip=("background",))
    for s, old in su.fixed_before:
        same_state(ctx, s, old, "running the fit leaves its spectra alone", skip=("background",))
    if su.signal is not None:
        del su.seen[:]
        m.points = m.points[:2]
        su.fit.remove_signal()
        su.fit.fit()
        for v, s, r in zip(points, su.seen, m.got):
            su.compare(v, s, r)
        # the signal comes back with another number of decays
        del su.seen[:]
        n2 = ctx.real("nsig2", 1, 100)
        f = n2 / su.signal._num_decays
        su.signal.scale(n2)
        su.sig_in = times(su.sig_in, f)
        su.fit.set_signal(su.signal)
        su.fit.fit()
        for v, s, r in zip(points, su.seen, m.got):
            su.compare(v, s, r)


CLOSE = dict(shift=[0.251, 0.254, 0.2540004], resolution=[0.1, 0.104, 0.1040004], scale=[1.001, 1.0011, 1.0011004],
             rate=[1.001, 1.0012, 1.0012004])


@case("C23", quick=[dict(floats=(("rate",),), glob=("shift",)), dict(floats=(("rate",),), glob=("resolution",)),
                    dict(floats=(("shift",), ("rate", "resolution")), glob=())],
      thorough=[dict(floats=(("rate",),), glob=("scale",)), dict(floats=(("rate",), ("rate",)), glob=("shift", "resolution")),
                dict(floats=(("scale", "rate"),), glob=())], budget=120)
def history(ctx, floats, glob):
    """The value at a point does not depend on the points visited before, however near."""
    seen = {}
    moved = ctx.choice("moved", list(glob) + [k for f in floats for k in f])
    for which in ("together", "alone0", "alone1"):
        m = Visits([], False)
        su = Setup(ctx, floats=floats, glob=glob, fixed=1, fine=True, signal=True, minimiser=m, grid=CLOSE,
                   known=True)
        names = su.listed()
        points = [[CLOSE[su.pars[n][1]][k if su.pars[n][1] == moved else 0] for n in names] for k in (0, 1, 2, 1)]
        m.points = points if which == "together" else points[int(which[-1]) + 1:int(which[-1]) + 2]
        su.fit.fit()
        seen[which] = list(su.seen), list(m.got)
    for k, other in ((1, "alone0"), (2, "alone1"), (3, "alone0")):
        ctx.eq(seen["together"][0][k][1], seen[other][0][0][1], "the expectation at a point does not depend on earlier points")
        ctx.eq(seen["together"][1][k], seen[other][1][0], "the value at a point does not depend on earlier points")


@case("C23", quick=[dict(what=w, glob=g) for w in ("signal", "floating", "data", "fixed", "statistic", "again", "config")
                    for g in (("shift",), ()) if w != "config" or g],
      thorough=[dict(what=w, glob=("shift", "resolution")) for w in ("signal", "floating", "data")], budget=120)
def replaced(ctx, what, glob):
    """After a spectrum of the fit is replaced, by one of the same name, the fit is that of the new one."""
    m = Visits([], False)
    fixed = 0 if what == "data" else 1
    su = Setup(ctx, floats=(("rate",), ()), glob=glob, fixed=fixed, fine="both" if what == "data" and glob else bool(glob),
               signal=bool(glob) or what != "data", minimiser=m)
    points = [su.point(k) for k in ((0, 2) if what == "config" else (0, 1))]
    m.points = [[v[n] for n in su.listed()] for v in points]
    su.fit.fit()
    del su.seen[:]
    nb = su.floating[0].get_config().get_par("energy_mc")._bins * 3 // 2
    if what == "signal":
        g = geos(ctx, nb, 0)
        su.sig_in = contents(ctx, "new", g)
        su.signal = spectrum(ctx, g, data=su.sig_in.copy(), num_decays=ctx.real("nnew", 1, 100), name="sig_mc")
        su.fit.set_signal(su.signal)
    elif what == "floating":
        k = ctx.choice("replace", [0, 1])
        g = geos(ctx, nb, 0)
        a, n = contents(ctx, "new", g), ctx.real("nnew", 1, 100)
        su.floating[k] = spectrum(ctx, g, data=a.copy(), num_decays=n, name="flt%d_mc" % k,
                                  fit_config=su.floating[k].get_fit_config())
        su.float_in[k] = (a, n)
        su.fit.set_floating_backgrounds(su.floating)
    elif what == "again":                      # the same objects, which hold something else by now
        for k in (0, 1):
            a, n = su.float_in[k]
            n2 = ctx.real("nnew%d" % k, 1, 100)
            su.floating[k].scale(n2)
            su.float_in[k] = (times(a, n2 / n), n2)
        su.fit.set_floating_backgrounds(su.floating)
    elif what == "config":                     # another systematic takes the place of the shift, at the same value
        config = ctx.load("echidna.core.config")
        su.fc = config.GlobalFitConfig("other", OrderedDict())
        p = su.par("scale", "energy_mc_scale")
        own = [(n, v) for n, v in su.pars.items() if v[2] is not None]
        su.pars = OrderedDict([("energy_mc_scale", (p, "scale", None))] + own)
        su.glob = ("scale",)
        su.fc.add_par(p, "global")
        su.fc.add_config(su.floating[0].get_fit_config())
        su.fit.set_fit_config(su.fc)
        points = [dict((n, 1. if v[1] == "scale" else 10.) for n, v in su.pars.items())]
        m.points = [[v[n] for n in su.listed()] for v in points]
    elif what == "data":
        bins = ctx.choice("bins", [3, 6]) if glob else 3
        g = geos(ctx, bins, 0)
        su.data_in = contents(ctx, "new", g)
        su.data = spectrum(ctx, g, data=su.data_in.copy(), name="data_mc")
        su.shape = (bins * 2 // 3,)
        su.fit.set_data(su.data)
    elif what == "fixed":
        g = geos(ctx, 3, 0)
        a, n, want = contents(ctx, "new", g), ctx.real("nnew", 1, 100), ctx.real("rnew", 0, 100)
        s = spectrum(ctx, g, data=a.copy(), num_decays=n, name="fix0_mc")
        su.fixed_in = [(a, n, want)]
        su.fit.make_fixed_background(OrderedDict([(s, want)]))
    else:
        su.base = "BakerCousinsLL"
        su.fit.set_test_statistic(capture(ctx, su.seen, False, su.base))
    su.fit.fit()
    ctx.check(len(su.seen) == len(points), "one comparison is made per set of values")
    for v, s, r in zip(points, su.seen, m.got):
        su.compare(v, s, r)


@case("C23", quick=[dict()])
def no_value(ctx):
    """Only values that were set are applied."""
    kind = ctx.choice("kind", ["rate", "shift", "resolution", "scale"])
    p = fit_par(ctx, kind, GRID[kind][0], GRID[kind][-1], 3, GRID[kind][1])
    s, a = simple(ctx, "s")
    before = state(ctx, s)
    ctx.raises(ValueError, p.get_current_value, label="a parameter that has no value is not applied")
    ctx.raises(ValueError, lambda: p.apply_to(s), label="a parameter that has no value is not applied")
    same_state(ctx, s, before, "a parameter that has no value is not applied")


@case("C23", quick=[dict(kind=k) for k in ("resolution", "shift", "scale", "rate")])
def applied(ctx, kind):
    """Applying a parameter is what its systematic does at the current value; resolutions above ten are light yields."""
    par = ctx.load("echidna.core.parameter")
    gs = [Geo("energy_mc", 1., 0.5, 4), Geo("energy_reco", 1., 0.5, 2)]
    a = ctx.arr(np.arange(1., 9.).reshape(4, 2) ** 2 % 7) if kind == "scale" else None
    s = spectrum(ctx, gs, data=a, lo=1, hi=100, num_decays=ctx.real("decays", 1, 1000))
    twin = spectrum(ctx, gs, data=ctx.snapshot(s._data), num_decays=s.get_num_decays())
    if kind == "rate":
        p = par.RateParameter("Bi_rate", 1., 1., 0., 200., 3)
    else:
        cls = dict(resolution=par.ResolutionParameter, shift=par.ShiftParameter, scale=par.ScaleParameter)[kind]
        p = cls("energy_mc_" + kind, 1., 1., 0., 200., 3, "energy_mc")
    v = ctx.choice("value", dict(resolution=[0.05, 0.9, 10.3, 40.3, 99.3, 250.3], shift=[-0.5, 0., 1.],
                                 scale=[1., 1.25], rate=[0., 1., 7.])[kind])
    p.set_current_value(3.3)                   # only the last value set counts
    p.set_current_value(v)
    got = p.apply_to(s)
    if kind == "rate":
        twin.scale(v)
        ctx.check(got is s, "a rate is applied to the spectrum itself")
    elif kind == "resolution":
        sm = ctx.load("echidna.core.smear")
        sm = sm.EnergySmearLY() if v > 10. else sm.EnergySmearRes()
        sm.set_resolution(v)
        twin = sm.weighted_smear(twin, "energy_mc")
    elif kind == "shift":
        sh = ctx.load("echidna.core.shift").Shift()
        sh.set_shift(v)
        twin = sh.shift(twin, "energy_mc")
    else:
        sc = ctx.load("echidna.core.scale").Scale()
        sc.set_scale_factor(v)
        twin = sc.scale(twin, "energy_mc")
    label = "a parameter does what its systematic does at the current value"
    ctx.eq(got._data, twin._data, label)
    ctx.eq(got.get_num_decays(), twin.get_num_decays(), label)
    ctx.eq(geometry(got), geometry(twin), label)
    ctx.eq(p.get_current_value(), v, "applying a parameter leaves its value alone")


@case("C23", quick=[dict(glob=("shift",)), dict(glob=("shift",), reverse=True), dict(glob=())], budget=120)
def same_background(ctx, glob, reverse=False):
    """Spectra of the same background (its name) are still different spectra."""
    m = Visits([], False)
    su = Setup(ctx, floats=(("rate",), ("rate",)), glob=glob, fixed=1, fine=bool(glob), signal=True, minimiser=m)
    for s in (su.floating[0], su.floating[1], su.signal):
        s.set_background_name("U238")
    points = [su.point(k) for k in ((1, 0) if reverse else (0, 1))]
    m.points = [[v[n] for n in su.listed()] for v in points]
    su.fit.fit()
    for v, s, r in zip(points, su.seen, m.got):
        su.compare(v, s, r)


@case("C23", quick=[dict(fixed=1, signal=False), dict(fixed=2, signal=True), dict(fixed=1, signal=True, radial=2),
                    dict(fixed=1, signal=True, radial=2, roi_radial=False),
                    dict(fixed=2, signal=True, single=True), dict(fixed=1, signal=True, per_bin=True)])
def fixed_only(ctx, **kw):
    per_bin = kw.get("per_bin", False)
    m = Visits([], per_bin)
    su = Setup(ctx, floats=(), minimiser=m, **kw)
    before = [(s, state(ctx, s)) for s in [su.data] + ([su.signal] if su.signal else []) + list(su.fixed)]
    for again in range(2):
        r = su.fit.fit()
        ctx.check(len(su.seen) == again + 1, "one comparison is made")
        su.compare({}, su.seen[-1], None)
        got = list(np.asarray(r, dtype=object).ravel()) if per_bin else r
        o, e = su.observed(), su.expected({})
        if su.single:
            o, e = [total(o)], [total(e)]
        ctx.eq(got, su.statistic(o, e), "the statistic is that of data against the expectation")
    for s, old in before:
        same_state(ctx, s, old, "running the fit leaves its spectra alone", skip=("background",))
    if su.signal is not None:
        su.fit.remove_signal()
        su.fit.fit()
        su.compare({}, su.seen[-1], None)


@case("C23", quick=[dict(floats=(("rate",), ("rate",)), glob=()), dict(floats=(("rate",),), glob=("shift",))], budget=120)
def with_grid_search(ctx, floats, glob):
    """The default minimiser evaluates the whole grid with the function of the fit."""
    grid = dict(rate=[0., 10.], shift=[0., 1.])
    su = Setup(ctx, floats=floats, fixed=1, glob=glob, fine=bool(glob), grid=grid)
    gs = su.fit.get_minimiser()
    su.fit.fit()
    names = su.listed()
    grids = [grid[su.pars[n][1]] for n in names]
    ctx.check(len(su.seen) == 4, "every combination of values is compared once")
    for i in indices([2] * len(names)):
        values = dict((n, g[k]) for n, g, k in zip(names, grids, i))
        o, e = su.observed(), su.expected(values)
        ctx.eq(gs.get_raw_stat(i), su.statistic(o, e), "the grid holds the statistic of its point")
        ctx.eq(gs.get_penalty_term(i), su.penalty(values), "the grid holds the penalty of its point")


# -- C24 -----------------------------------------------------------------------------------------------
def simple(ctx, name, n=3, kind="mc", radial=0, decays=None, low=LOW, high=HIGH, order=1, sfx="mc", fit_config=None):
    g = [Geo("energy_" + kind, low, (high - low) / n, n)]
    if radial:
        g.append(Geo("radial_" + kind, 0., 0.5, radial))
    g = g[::order]
    a = contents(ctx, name, g)
    s = spectrum(ctx, g, data=a.copy(), num_decays=decays or ctx.real("n" + name, 1, 100), name=name + "_" + sfx,
                 fit_config=fit_config)
    return s, a


def new_fit(ctx, *a, **k):
    return ctx.load("echidna.fit.fit").Fit(*a, **k)


def rate_config(ctx, name, pn="rate"):
    config = ctx.load("echidna.core.config")
    p = fit_par(ctx, "rate", 0., 20., 3, 10., sigma=None)
    return config.SpectraFitConfig(name + "_fit", OrderedDict([(pn, p)]), name)


@case("C24", quick=[dict(n=n, radial=r, more=m) for n, r, m in ((1, 0, 1), (2, 0, 0), (3, 2, 1))])
def fixed_background(ctx, n, radial, more):
    """The fixed background is the sum of the spectra given, each at its rate, in the region of interest."""
    data, data_in = simple(ctx, "data", radial=radial)
    given, inputs = OrderedDict(), []
    for k in range(n + more):
        s, a = simple(ctx, "b%d" % k, radial=radial)
        r = ctx.real("rate%d" % k, 0, 200)
        given[s] = r
        inputs.append((a, s._num_decays, r))
    first = OrderedDict(list(given.items())[:n])
    before = [(s, state(ctx, s)) for s in given]
    roi = {"energy": ROI}
    fit = new_fit(ctx, roi, capture(ctx, [], False), data=data, fixed_backgrounds=first)

    def is_sum(upto):
        fb = fit.get_fixed_background()
        g = geometry(fb)
        ctx.eq([x[1:] for x in g[:1]], [(ROI[0], ROI[1], 2)], "the fixed background covers the region of interest")
        want = None
        for a, d, r in inputs[:upto]:
            e = times(kept(a), r / d)
            want = e if want is None else plus(want, e)
        ctx.check(tuple(fb._data.shape) == want.shape, "the fixed background covers the region of interest")
        if tuple(fb._data.shape) == want.shape:
            ctx.eq(np.array(np.asarray(fb._data, dtype=object)), want,
                   "the fixed background is the sum of the spectra at their rates")
        ctx.eq(fb._num_decays, total(r for _, _, r in inputs[:upto]), "its decays are those of all of them")
    is_sum(n)
    for s, old in before:
        same_state(ctx, s, old, "the spectra given are left alone")
    ctx.check(list(first.keys()) == list(given.keys())[:n], "the dictionary given is left alone")
    if more:
        fit.append_fixed_background(OrderedDict(list(given.items())[n:]))
        is_sum(n + more)
        for s, old in before:
            same_state(ctx, s, old, "the spectra given are left alone")
    fit.fit()
    for s, old in before:
        same_state(ctx, s, old, "the spectra given are left alone")
    is_sum(n + more)


@case("C24", quick=[dict(bad=b) for b in (None, 0, 1)])
def appended(ctx, bad):
    """A background set by the caller is still the caller's when more is appended to the fixed background."""
    fit = new_fit(ctx, {"energy": ROI}, capture(ctx, [], False))
    mine, mine_in = simple(ctx, "mine")
    shrink = ctx.choice("shrink", [True, False])
    fit.set_fixed_background(mine)
    set_ = state(ctx, mine)
    more, want, decays = OrderedDict(), kept(mine_in), mine._num_decays
    for k in range(2):
        s, a = simple(ctx, "more%d" % k, n=6 if bad == k else 3)
        r = ctx.real("rate%d" % k, 0, 200)
        if not shrink:
            s.shrink(energy_mc_low=ROI[0])
        more[s] = r
        want, decays = plus(want, times(kept(a), r / s._num_decays)) if bad is None else want, decays + r
    before = [(s, state(ctx, s)) for s in more]
    if bad is None:
        fit.append_fixed_background(more, shrink=shrink)
        label = "the fixed background is the sum of the spectra at their rates"
    else:
        label = "spectra that do not match are not added, nor the others given with them"
        ctx.refuses(fit.append_fixed_background, more, shrink=shrink, label=label)
        decays = mine._num_decays
    fb = fit.get_fixed_background()
    ctx.eq(np.array(np.asarray(fb._data, dtype=object)), want, label)
    ctx.eq(fb._num_decays, decays, label)
    same_state(ctx, mine, set_, "the spectra given are left alone")
    for s, old in before:
        same_state(ctx, s, old, "the spectra given are left alone")


@case("C24", quick=[dict(shrink=True, how="init"), dict(shrink=True, how="set"), dict(shrink=False, how="set"),
                    dict(shrink=False, how="init")])
def one_region(ctx, shrink, how):
    """Everything fitted covers the region of interest exactly, or is refused."""
    lo = ctx.choice("low_at", [0., 2., 4., "off"])
    hi = ctx.choice("high_at", [2., 4., 6., "off"])
    exact = "off" not in (lo, hi)
    if lo == "off":
        lo = ctx.real("roi_low", 0.0625, 1.9375) + ctx.choice("low_in", [0., 2.])
    if hi == "off":
        hi = ctx.real("roi_high", 2.0625, 3.9375) + ctx.choice("high_in", [0., 2.])
    ctx.assume(hi - lo >= 1)
    roi = {"energy": (lo, hi)}
    ts = capture(ctx, [], False)
    data, data_in = simple(ctx, "data")
    fixed, fixed_in = simple(ctx, "fix")
    flt, flt_in = simple(ctx, "flt", n=6, fit_config=rate_config(ctx, "flt_mc"))
    sig, sig_in = simple(ctx, "sig")
    spectra = [(data, data_in), (sig, sig_in), (flt, flt_in)]
    old = [(s, state(ctx, s)) for s, _ in spectra]

    def build():
        if how == "init":
            return new_fit(ctx, roi, ts, data=data, fixed_backgrounds={fixed: 10.},
                           floating_backgrounds=[flt] if exact else None, signal=sig if exact else None,
                           minimiser=Visits([], False), shrink=shrink)
        f = new_fit(ctx, roi, ts)
        f.set_data(data, shrink=shrink)
        f.make_fixed_background({fixed: 10.}, shrink=shrink)
        f.set_floating_backgrounds([flt], shrink=shrink)
        f.set_signal(sig, shrink=shrink)
        f.set_minimiser(Visits([], False))
        f.check_fitter()
        return f
    whole = exact and lo == 0. and hi == 6.
    if not exact or (not shrink and not whole):
        ctx.refuses(build, label="a region of interest that the spectra cannot have is refused")
        if not shrink:
            for s, o in zip((data, sig, flt), old):
                same_state(ctx, s, o[1], "spectra are not shrunk when this is not wanted")
        return
    f = build()
    nlo, nhi = [i for i, e in enumerate((0., 2., 4., 6.)) if bool(lo == e)][0], \
               [i for i, e in enumerate((0., 2., 4., 6.)) if bool(hi == e)][0]
    for s, a in spectra + [(f.get_fixed_background(), times(fixed_in, 10. / fixed._num_decays))]:
        k = a.shape[0] // 3
        ctx.eq([x[1:] for x in geometry(s)], [(2. * nlo, 2. * nhi, (nhi - nlo) * k)],
               "every spectrum of the fit covers the region of interest")
        ctx.eq(np.array(np.asarray(s._data, dtype=object)), np.array(np.asarray(a, dtype=object)[nlo * k:nhi * k]),
               "every spectrum of the fit keeps its contents there")
    ctx.eq(roi, {"energy": (lo, hi)}, "the region of interest given is left alone")
    ctx.eq(f.get_roi(), {"energy": (lo, hi)}, "the region of interest is the one given")


@case("C24", quick=[dict(what=w) for w in ("data", "signal", "fixed", "floating", "none")])
def two_regions(ctx, what):
    """A region in two dimensions must be matched in both."""
    roi = ctx.choice("roi", [(("energy", (2., 6.)), ("radial", (0., 1.))), (("radial", (0., 1.)), ("energy", (2., 6.)))])
    roi = OrderedDict(roi)
    wrong = ctx.choice("wrong", [(0, -2.), (0, 2.), (1, -0.5), (1, 0.5)]) if what != "none" else None

    def make(name, **kw):
        g = [Geo("energy_mc", 2., 2., 2), Geo("radial_mc", 0., 0.5, 2)]
        if name == what:                       # covers more in one dimension, on one side
            w = g[wrong[0]]
            g[wrong[0]] = Geo(w.name, w.low + min(0., wrong[1]), w.width, 3)
        return spectrum(ctx, g, prefix=name, num_decays=10., name=name + "_mc", lo=0, **kw)
    s = dict((n, make(n)) for n in ("data", "signal", "fixed"))
    flt = make("floating", fit_config=rate_config(ctx, "floating_mc"))

    def build():
        f = new_fit(ctx, roi, capture(ctx, [], False))
        f.set_data(s["data"], shrink=False)
        f.make_fixed_background({s["fixed"]: 10.}, shrink=False)
        f.set_floating_backgrounds([flt], shrink=False)
        f.set_signal(s["signal"], shrink=False)
        f.set_minimiser(Visits([[10.]], False))
        f.check_fitter()
        return f
    if what != "none":
        ctx.refuses(build, label="a region of interest that the spectra cannot have is refused")
        return
    f = build()
    ctx.check(f.get_roi() == dict(roi), "the region of interest is the one given")
    f.fit()


@case("C24", quick=[dict(shrink=True), dict(shrink=False)])
def decimal_region(ctx, shrink):
    """A region typed as decimal numbers: the edges of the spectra differ from it by rounding only."""
    lo, hi = ctx.choice("roi", [(0.3, 0.7), (0.2, 0.6), (0.1, 0.8)])
    roi = {"energy": (lo, hi)}
    ts = capture(ctx, [], False)
    a, b = (int(round(10 * v)) for v in (lo, hi))
    whole = []
    for name in ("data", "fix", "sig", "flt"):
        s, x = simple(ctx, name, n=10, low=0., high=1., fit_config=rate_config(ctx, "flt_mc") if name == "flt" else None)
        if not shrink:
            # cut out beforehand, with edges as the bin width gives them
            w = 1. / 10
            g = Geo("energy_mc", 0. + a * w, w, b - a)
            g.high = 0. + b * w
            s = spectrum(ctx, [g], data=x[a:b].copy(), num_decays=s._num_decays, name=name + "_mc",
                         fit_config=s._fit_config)
        whole.append((s, x))
    (data, _), (fixed, fin), (sig, _), (flt, _) = whole
    n0 = fixed._num_decays
    f = new_fit(ctx, roi, ts, data=data, fixed_backgrounds={fixed: 10.}, floating_backgrounds=[flt], signal=sig,
                minimiser=Visits([], False), shrink=shrink)
    f.check_fitter()
    label = "a region of decimal numbers keeps exactly its bins"
    whole[1] = (f.get_fixed_background(), times(fin, 10. / n0))
    for s, x in whole:
        ctx.check(s._data.shape == (b - a,), label)
        if s._data.shape == (b - a,):
            ctx.eq(np.array(np.asarray(s._data, dtype=object)), np.array(np.asarray(x, dtype=object)[a:b]), label)


@case("C24", quick=[dict(what=w, how=h) for w in ("data", "fixed", "made", "signal", "floating") for h in
                    ("order", "one_bin", "other")])
def changed_later(ctx, what, how):
    """Spectra given after a fit was run have to match like those given before."""
    seen = []
    ts = capture(ctx, seen, False)
    roi = {"energy": ROI, "radial": (0., 1.)}
    floating = ctx.choice("floating", [True, False]) if what != "floating" else True
    data, _ = simple(ctx, "data", n=3, radial=2)
    mk = lambda n, **k: simple(ctx, n, n=3, radial=2, **k)[0]
    cfg = lambda n: rate_config(ctx, n + "_mc")
    f = new_fit(ctx, roi, ts, data=data, fixed_backgrounds={mk("fix"): 10.}, signal=mk("sig"), minimiser=Visits([[10.]], False),
                floating_backgrounds=[mk("flt", fit_config=cfg("flt"))] if floating else None)
    f.fit()
    ctx.check(len(seen) == 1, "a complete fit of matching spectra is made")
    kw = dict(order=dict(order=-1), one_bin=dict(low=2., high=6., n=1), other=dict(low=4., high=6., n=2))[how]
    n = kw.pop("n", 3)
    bad, _ = simple(ctx, "bad", n=n, radial=2, fit_config=cfg("bad") if what == "floating" else None, **kw)

    def run():
        if what == "data":
            f.set_data(bad)
        elif what == "fixed":
            f.set_fixed_background(bad)
        elif what == "made":
            f.make_fixed_background({bad: 5.})
        elif what == "signal":
            f.set_signal(bad)
        else:
            f.set_floating_backgrounds([bad])
        f.fit()
    del seen[:]
    ctx.refuses(run, label="spectra that do not match, given later, are refused")
    ctx.check(not seen, "no statistic is computed for a fit that is refused")


@case("C24", quick=[dict()])
def bad_regions(ctx):
    ts = capture(ctx, [], False)
    err = ctx.load("echidna.errors.custom_errors")
    x, y = ctx.real("x", -50, 50), ctx.real("y", -50, 50)
    ctx.raises(TypeError, new_fit, ctx, [(x, y)], ts, label="a region that is not a dictionary is refused")
    ctx.raises(TypeError, new_fit, ctx, {"energy": x}, ts, label="a region without two limits is refused")
    ctx.raises(err.CompatibilityError, new_fit, ctx, {"energy": (x,)}, ts,
               label="a region without two limits is refused")
    ctx.raises(err.CompatibilityError, new_fit, ctx, {"energy": [x, y, y]}, ts,
               label="a region without two limits is refused")
    as_list = ctx.choice("list", [True, False])
    roi = {"energy": [x, y] if as_list else (x, y), "radial": (0., 1.)}
    f = new_fit(ctx, roi, ts)
    ctx.eq([v for v in roi["energy"]], [x, y], "the region of interest given is left alone")
    lo, hi = f.get_roi()["energy"]
    if x <= y:
        ctx.eq([lo, hi], [x, y], "the lower limit comes first")
    else:
        ctx.eq([lo, hi], [y, x], "the lower limit comes first")
    ctx.eq([v for v in f.get_roi()["radial"]], [0., 1.], "the region of interest is the one given")


@case("C24", quick=[dict(which=w) for w in ("order_fixed", "order_signal", "order_float", "bins_fixed", "bins_signal",
                                            "bins_float", "one_bin_signal", "dims_fixed", "dims_float", "no_data",
                                            "no_background", "later_roi", "per_bin_ts", "per_bin_min", "no_pars",
                                            "ok")])
def refusals(ctx, which):
    """A fit of spectra that do not match, or that is not complete, gives no statistic."""
    seen = []
    per = which.startswith("per_bin")
    ts = capture(ctx, seen, which == "per_bin_min")
    roi = {"energy": ROI, "radial": (0., 1.)}
    data, _ = simple(ctx, "data", radial=2)
    kw = lambda w: dict(order=-1) if which == "order_" + w else dict(n=6) if which == "bins_" + w else \
        dict(low=2., high=6., n=1) if which == "one_bin_" + w else {}
    fixed, _ = simple(ctx, "fix", radial=0 if which == "dims_fixed" else 2, **kw("fixed"))
    flt, _ = simple(ctx, "flt", radial=0 if which == "dims_float" else 2,
                    fit_config=None if which == "no_pars" else rate_config(ctx, "flt_mc"),
                    **(dict(n=9) if which == "bins_float" else kw("float")))
    if which == "bins_float":
        roi["energy"] = (0., 2.)                # 3 bins of the background for 1 of the data: can be rebinned
    sig, _ = simple(ctx, "sig", radial=2, **kw("signal"))
    m = Visits([[10.]], which == "per_bin_ts")

    def run():
        f = new_fit(ctx, roi, ts, per_bin=per, data=None if which == "no_data" else data,
                    fixed_backgrounds=None if which == "no_background" else {fixed: 10.},
                    floating_backgrounds=None if which == "no_background" else [flt], signal=sig, minimiser=m)
        if which == "later_roi":
            f.fit()
            del seen[:]
            f.set_roi({"energy": (0., 6.), "radial": (0., 1.)})
        return f.fit()
    if which in ("ok", "bins_float"):
        run()
        ctx.check(len(seen) == 1, "a complete fit of matching spectra is made")
        return
    ctx.refuses(run, label="spectra that do not match, or an incomplete fit, are refused")
    ctx.check(not seen, "no statistic is computed for a fit that is refused")


@case("C24", quick=[dict()])
def getters(ctx):
    data, _ = simple(ctx, "data")
    flt, _ = simple(ctx, "flt", fit_config=rate_config(ctx, "flt_mc"))
    flt2, _ = simple(ctx, "flt2", fit_config=rate_config(ctx, "flt2_mc"))
    sig, _ = simple(ctx, "sig")
    ts = capture(ctx, [], False)
    f = new_fit(ctx, {"energy": ROI}, ts, data=data, floating_backgrounds=[flt, flt2], signal=sig)
    ctx.check(f.get_data() is data and f.get_signal() is sig and f.get_test_statistic() is ts and
              list(f.get_floating_backgrounds()) == [flt, flt2] and f.get_fixed_background() is None,
              "the spectra given are those of the fit")
    ctx.check(list(f.get_fit_config().get_pars()) == ["flt_mc_rate", "flt2_mc_rate"],
              "every parameter of every floating background is fitted")
    for k, s in enumerate((flt, flt2)):
        own = s.get_fit_config()
        ctx.check(f.get_fit_config().get_par_by_index(k) is own.get_par(list(own.get_pars())[0]),
                  "the parameters fitted are those of the backgrounds")
    f.remove_signal()
    ctx.check(f.get_signal() is None, "a removed signal is gone")
    ctx.raises(TypeError, f.set_fit_config, {"a": 1}, label="a fit configuration of another type is refused")
