"""Builders shared by the harnesses."""
import itertools
from collections import OrderedDict

import numpy as np

NAMES = ["energy_mc", "radial_mc", "time_mc", "zenith_mc"]


class Geo(object):
    """Geometry of one axis as the harness knows it."""

    def __init__(self, name, low, width, bins):
        self.name, self.low, self.width, self.bins = name, low, width, bins
        self.high = low + bins * width

    def edge(self, i):
        return self.low + i * self.width

    def centre(self, i):
        return self.low + (i + 0.5) * self.width


def axis(ctx, name, bins, sym=True, low=None, width=None, lo=-50, hi=50, wlo=0.0625, whi=10):
    if sym == "low":                # symbolic position, a few concrete widths (keeps terms linear)
        width = ctx.choice(name + "_width", [1., 0.25, 3.])
    if low is None:
        low = ctx.real(name + "_low", lo, hi) if sym else 0.
    if width is None:
        width = ctx.real(name + "_width", wlo, whi) if sym else 1.
    return Geo(name, low, width, bins)


def spectra_config(ctx, geos, name="config"):
    config = ctx.load("echidna.core.config")
    parameter = ctx.load("echidna.core.parameter")
    pars = OrderedDict()
    for g in geos:
        pars[g.name] = parameter.SpectraParameter(g.name, g.low, g.high, g.bins)
    return config.SpectraConfig(name, pars)


def spectrum(ctx, geos, data=None, num_decays=100., name="spec", raw=None, prefix="d", lo=None, hi=None,
             fit_config=None):
    spectra = ctx.load("echidna.core.spectra")
    s = spectra.Spectra(name, num_decays, spectra_config(ctx, geos), fit_config)
    if data is None:
        data = ctx.reals(prefix, tuple(g.bins for g in geos), lo, hi)
    if isinstance(s._data, np.ndarray) and s._data.shape == np.shape(data):
        s._data[...] = data         # the array stays the one the spectrum made (its element type matters)
    else:
        s._data = data
    if raw is not None:
        s._raw_events = raw
    return s


def geometry(s):
    """(name, low, high, bins) per axis, as recorded by the spectrum."""
    c = s.get_config()
    return [(p, c.get_par(p)._low, c.get_par(p)._high, c.get_par(p)._bins) for p in c.get_pars()]


def state(ctx, s):
    """Everything a user sees of a spectrum."""
    return dict(data=ctx.snapshot(s._data), geo=geometry(s), decays=s._num_decays, raw=s._raw_events,
                name=s._name, rois=dict((k, dict(v)) for k, v in s._rois.items()), bipo=s._bipo,
                background=s._background_name)


def same_state(ctx, s, before, label, skip=()):
    now = state(ctx, s)
    for k in before:
        if k in skip:
            continue
        if k == "data" and now[k].shape != before[k].shape:
            ctx.fail(label, "data shape %s became %s" % (before[k].shape, now[k].shape))
            return
        ctx.eq(now[k], before[k], label)


def indices(shape):
    return list(itertools.product(*[range(n) for n in shape]))


def total(xs):
    t = 0.
    for x in xs:
        t = t + x
    return t


def arr_total(a):
    return total(list(np.asarray(a).ravel()))
