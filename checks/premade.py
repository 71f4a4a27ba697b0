"""C33: fits with pre-made convolved spectra use the spectrum stored for the values of the point."""
import os
from collections import OrderedDict

import numpy as np

from engine.registry import case
from checks.common import Geo, same_state, spectrum, state
from checks.fit import LOW, HIGH, ROI, Visits, capture, kept, merged, onto, plus, times
from checks.params import fit_par
from checks.scripts import run

SUFFIX = dict(shift="sh", scale="sc")
SUBDIR = dict(resolution="smear", shift="shift", scale="scale")


def par(ctx, dim, kind, grid):
    p = ctx.load("echidna.core.parameter")
    cls = dict(resolution=p.ResolutionParameter, shift=p.ShiftParameter, scale=p.ScaleParameter)[kind]
    return cls(dim + "_" + kind, grid[0], None, grid[0], grid[-1], len(grid), dimension=dim)


def text(v):
    s = repr(float(v))
    return s[:-2] if s.endswith(".0") else s


def unit(kind, v):
    return SUFFIX.get(kind) or ("ly" if v > 10 else "rs")


def is_number(s):
    try:
        float(s)
    except ValueError:
        return False
    return True


def where(base, location, pars, values):
    """Where the documentation says the spectrum for these values is, as a normal path."""
    d, f = os.path.split(location)
    d = os.path.normpath(base if base is not None else d)
    dirs = [""] if d == "/" else d.split("/")
    words = f[:-len(".hdf5")].split("_")
    for (dim, kind), v in zip(pars, values):
        if dim not in dirs:
            dirs.append(dim)
        last = len(dirs) - 1 - dirs[::-1].index(dim)
        if SUBDIR[kind] not in dirs[last + 1:]:
            dirs.append(SUBDIR[kind])
        u = unit(kind, v)
        old = [i for i, w in enumerate(words) if w.endswith(u) and is_number(w[:-len(u)])]
        for i in old:
            words[i] = text(v) + u
        if not old:
            words.append(text(v) + u)
    return os.path.normpath("/".join(dirs + ["_".join(words) + ".hdf5"]))


E, R = "energy_mc", "radial_mc"
GRID = dict(resolution=[0.05, 0.1, 0.3], ly=[100., 200., 250.], shift=[-1., 0., 0.5], scale=[0.95, 1., 1.125])
SETS = [
    [(E, "shift")], [(E, "resolution")], [(E, "ly")], [(E, "scale")], [(R, "shift")],
    [(E, "shift"), (E, "resolution")], [(E, "ly"), (E, "shift"), (E, "scale")], [(E, "scale"), (R, "shift")],
    [(R, "scale"), (E, "resolution")],
]
LOCATIONS = [
    # spectrum file, base directory
    ("pdfs/Te130.hdf5", None), ("Te130.hdf5", None), ("/data/v1.2/Te130_2n2b.hdf5", None), ("./Te130.hdf5", None),
    ("/Te130.hdf5", None), ("pdfs/Te130.hdf5", "/made/"), ("pdfs/Te130.hdf5", "made"), ("Te130.hdf5", "made/a.b"),
    ("energy_mc_files/Te130.hdf5", None), ("scale/shift/smear/Te130.hdf5", None),
    ("pdfs/Te130_pars_misc_internally_fresh.hdf5", None), ("pdfs/pars_Te130.hdf5", "made"),
    ("pdfs/energy_mc/smear/Te130_200ly.hdf5", None), ("pdfs/energy_mc/smear/Te130_0.05rs_a.hdf5", None),
    ("pdfs/energy_mc/shift/Te130_0.25sh.hdf5", None),
    ("energy_mc/scale/shift/smear/energy_mc/Te130.hdf5", None), ("Te130.hdf5", "energy_mc/smear/energy_mc/shift/a/scale"),
]
# convolved already: only with a parameter of the kind they hold first
FIRST = {"Te130_200ly.hdf5": "ly", "Te130_0.05rs_a.hdf5": "resolution", "Te130_0.25sh.hdf5": "shift"}


class PreMade(object):
    def __init__(self, ctx, pars, locations, base, rates=(True, False), signal=True, how="init", points=(0, 1, 2), whole=False):
        self.ctx, self.pars, self.base = ctx, [(d, k if k != "ly" else "resolution") for d, k in pars], base
        config = ctx.load("echidna.core.config")
        self.store = ctx.load("echidna.output.store")
        self.fc = config.GlobalFitConfig("global", OrderedDict())
        self.grids = [GRID[k] for d, k in pars]
        for (d, k), g in zip(self.pars, self.grids):
            self.fc.add_par(par(ctx, d, k, g), "global")
        number = ctx.choice("number", [float, int]) if whole else float
        self.points = [[number(g[(w + j * (w + 1)) % 3]) for j, g in enumerate(self.grids)] for w in points]
        self.radial = any(d == R for d, k in pars)
        self.m = Visits([], False)
        self.seen = []
        data, self.data_in = self.make("data", 3)
        fixed, self.fix_in = self.make("fix", 3)
        self.nfix, self.rfix = fixed._num_decays, ctx.real("rfix", 0, 100)
        self.floating, self.rated, self.made = [], [], []
        for k, rate in enumerate(rates):
            s, _ = self.make("flt%d" % k, 6, locations[k])
            if rate:
                rp = fit_par(ctx, "rate", 0., 20., 3, 10., sigma=None)
                s.set_fit_config(config.SpectraFitConfig("flt%d_fit" % k, OrderedDict([("rate", rp)]), "flt%d_mc" % k))
            self.floating.append(s)
            self.rated.append(rate)
        self.signal = None
        if signal:
            self.signal, _ = self.make("sig", 6, locations[len(rates)])
        self.all = self.floating + ([self.signal] if signal else [])
        self.before = [(s, state(ctx, s)) for s in self.all]
        self.put(base)
        fit = ctx.load("echidna.fit.fit")
        kw = {}
        if how == "init":
            kw["pre_made_base_dir"] = base
        self.fit = fit.Fit({"energy": ROI}, capture(ctx, self.seen, False), fit_config=self.fc, data=data,
                           fixed_backgrounds=OrderedDict([(fixed, self.rfix)]), floating_backgrounds=self.floating,
                           signal=self.signal, minimiser=self.m, use_pre_made=True, **kw)

    def make(self, name, bins, location=None):
        gs = [Geo(E, LOW, (HIGH - LOW) / bins, bins)] + ([Geo(R, 0., 1., 2)] if self.radial else [])
        a = self.ctx.reals(name, tuple(g.bins for g in gs), 0, 100)
        s = spectrum(self.ctx, gs, data=a.copy(), num_decays=self.ctx.real("n" + name, 1, 100), name=name + "_mc")
        if location:
            self.store.dump(location, s)
            s = self.store.load(location)
        return s, a

    def put(self, base, tag=""):
        """Store what the fit should use."""
        self.made = []
        for i, s in enumerate(self.all):
            row = []
            for w, v in enumerate(self.points):
                m, a = self.make("made%s%d_%d" % (tag, i, w), 6)
                self.store.dump(where(base, s._location, self.pars, v), m)
                row.append((a, m._num_decays))
            self.made.append(row)

    def names(self):
        return list(self.fc.get_pars())

    def judge(self, rates, points=None):
        ctx = self.ctx
        points = list(range(len(self.points))) if points is None else points
        names = self.names()
        g = [d + "_" + k for d, k in self.pars]
        r = [n for n in names if n not in g]
        ctx.check(len(r) == sum(self.rated) and len(names) == len(r) + len(g), "every parameter of the fit is listed")
        self.m.points = []
        for k in points:
            values = dict(zip(g, self.points[k]))
            values.update((n, rates[k]) for n in r)
            self.m.points.append([values[n] for n in names])
        del self.seen[:]
        self.fit.fit()
        ctx.check(len(self.seen) == len(points), "one comparison is made per set of values")
        shape = (2,) + ((2,) if self.radial else ())
        for k, (o, e) in zip(points, self.seen):
            ctx.eq(o, onto(kept(self.data_in), [0]), "the data compared are those of the region of interest")
            want = times(kept(self.fix_in), self.rfix / self.nfix)
            for i, s in enumerate(self.all):
                a, n = self.made[i][k]
                decays = rates[k] if i < len(self.rated) and self.rated[i] else self.before[i][1]["decays"]
                want = plus(want, times(merged(kept(a), shape), decays / n))
            ctx.eq(e, onto(want, [0]),
                   "the expectation uses the spectra stored for the values of the point, at the rates of the fit")


@case("C33", quick=[dict(n=k) for k in range(len(SETS))], budget=120)
def stored(ctx, n):
    pars = SETS[n]
    location, base = ctx.choice("location", LOCATIONS)
    f = os.path.basename(location)
    if f in FIRST and (FIRST[f] != pars[0][1] or pars[0][0] != E):
        return
    others = [os.path.join(os.path.dirname(location), x) for x in ("b_0.hdf5", "sig.hdf5")] if f not in FIRST else \
        ["pdfs/b_0.hdf5", "sig.hdf5"]
    p = PreMade(ctx, pars, [location] + others, base, whole=pars == [(E, "ly")])
    p.judge([10., 20., 0.])
    for s, old in p.before:
        ctx.check(s._name == old["name"] and len(s._data) == 4, "running the fit leaves its spectra alone")
        ctx.eq(s._num_decays, old["decays"], "running the fit leaves its spectra alone")
    p.judge([0., 5., 20.], [2, 1, 0, 1])


@case("C33", quick=[dict(kind=k) for k in ("resolution", "ly", "shift", "scale")], budget=120)
def convolved_before(ctx, kind):
    """The name holds another value of the kind already, anywhere."""
    old = dict(resolution="0.25rs", ly="150.5ly", shift="-0.25sh", scale="0.5sc")[kind]
    name = ctx.choice("name", ["Te_%s.hdf5", "Te_%s_b.hdf5", "Te_1st_%s_0.5xy.hdf5", "%s.hdf5", "%s_b.hdf5"]) % old
    sub = SUBDIR["resolution" if kind == "ly" else kind]
    d = ctx.choice("in", ["pdfs", "pdfs/energy_mc", "energy_mc/" + sub, sub + "/energy_mc/%s/" % sub])
    p = PreMade(ctx, [(E, kind)], [d + "/" + name], None, rates=(True,), signal=False)
    p.judge([10., 20., 5.])


@case("C33", quick=[dict(kinds=((E, "shift"),), when=w) for w in ("before", "between", "both")], budget=60)
def directory(ctx, kinds, when):
    """The directory can be set later, also after a fit."""
    first = None if when == "before" else "made"
    p = PreMade(ctx, kinds, ["pdfs/a.hdf5", "pdfs/b.hdf5", "pdfs/c.hdf5"], first, how="init")
    if when != "before":
        p.judge([10., 20., 0.])
    d = ctx.choice("dir", ["/tmp", "/tmp/"])
    p.put(d.rstrip("/"), "later")
    p.fit.set_pre_made_dir(d)
    p.judge([10., 20., 0.])
    if when == "both":
        p.put("/usr", "again")
        p.fit.set_pre_made_dir("/usr")
        p.judge([10., 20., 5.])
    ctx.raises(ValueError, lambda: p.fit.set_pre_made_dir("/nowhere/at/all"), label="a directory that does not exist is refused")
    p.judge([10., 20., 0.])


@case("C33", quick=[dict()])
def no_value(ctx):
    kind = ctx.choice("kind", ["resolution", "shift", "scale"])
    q = par(ctx, E, kind, GRID[kind])
    if ctx.choice("set", [False, True]):
        q.set_current_value(GRID[kind][0])
        got = [tuple(map(str, q.get_pre_convolved(d, "a.hdf5", True))) for d in ("pdfs/energy_mc", "pdfs/energy_mc/")]
        ctx.check(got[0] == got[1], "a directory is the same with and without a trailing slash")
        return
    ctx.raises(ValueError, lambda: q.get_pre_convolved("pdfs/", "a.hdf5", True), label="a parameter without a value has no file")


@case("C33", quick=[dict(n=k) for k in (0, 6, 7)], budget=60)
def missing(ctx, n):
    """A spectrum that was not made is not replaced by another one."""
    p = PreMade(ctx, SETS[n], ["pdfs/a.hdf5", "pdfs/b.hdf5", "pdfs/c.hdf5"], None)
    p.judge([10., 20., 0.])
    which = ctx.choice("which", range(3))
    gone = where(None, p.all[which]._location, p.pars, p.points[1])
    p.fit._global_dict.clear()
    del ctx.loader.fs.files[gone]
    try:
        p.judge([10., 20., 0.], [1])
    except Exception:
        ctx.check(True, "a spectrum that is not there is reported")
        return
    ctx.fail("a spectrum that is not there is reported")


@case("C33", quick=[dict(dims=(E, R), kind="scale")], budget=60)
def same_unit(ctx, dims, kind):
    """Two parameters whose values are written with the same unit."""
    p = PreMade(ctx, [(d, kind) for d in dims], ["pdfs/a.hdf5"], None, rates=(True,), signal=False)
    pairs = {}
    for a in GRID[kind]:
        for b in GRID[kind]:
            directory, filename = "pdfs/", "a.hdf5"
            for q, v in zip([p.fc.get_par(d + "_" + kind) for d in dims], (a, b)):
                q.set_current_value(v)
                directory, filename = q.get_pre_convolved(directory + q._dimension + "/", filename, True)
            pairs.setdefault(os.path.normpath(directory + filename), []).append((a, b))
    ctx.check(all(len(v) == 1 for v in pairs.values()), "different values have different files")


@case("C33", quick=[dict(script=s) for s in ("dump_scaled", "dump_shifted", "dump_smeared_energy")] +
      [dict(script="dump_smeared_energy", ly=True)], budget=120)
def made_by_scripts(ctx, script, ly=False):
    """Spectra made by the scripts give the fit that convolves on the fly."""
    kind, option, sub = dict(dump_scaled=("scale", "-s", "scale"), dump_shifted=("shift", "-s", "shift"),
                             dump_smeared_energy=("resolution", "-l" if ly else "-r", "smear"))[script]
    config, store, fit = ctx.load("echidna.core.config"), ctx.load("echidna.output.store"), ctx.load("echidna.fit.fit")
    grid = [100., 200., 250.] if ly else dict(scale=[0.9, 1., 1.125], shift=[-1., 0., 1.], resolution=[0.05, 0.125, 0.3])[kind]
    results = {}
    for use in (False, True):
        ctx.loader.fs.files.clear()
        seen = []
        spectra = []
        for k, name in enumerate(("flt", "sig")):
            g = [Geo(E, 0., 1., 6)]
            data = ctx.arr(np.array([1. + (3 * i + k) % 5 for i in range(6)]))
            if kind != "scale":
                data = ctx.reals(name, (6,), 1, 100)
            s = spectrum(ctx, g, data=data, num_decays=ctx.real("n" + name, 1, 100), name=name + "_mc", raw=5)
            s._background_name = name
            store.dump("pdfs/%s.hdf5" % name, s)
            spectra.append(store.load("pdfs/%s.hdf5" % name))
        if use:
            for name in ("flt", "sig"):
                for v in grid:
                    before = set(ctx.loader.fs.files)
                    argv = {"dump_scaled": ["-p", E, "-f", "pdfs/%s.hdf5" % name], "dump_shifted":
                            ["-d", E, "-f", "pdfs/%s.hdf5" % name], "dump_smeared_energy": ["pdfs/%s.hdf5" % name]}[script]
                    ctx.check(run(ctx, script, argv + [option, repr(v)]), "the script reports no error")
                    new = set(ctx.loader.fs.files) - before
                    ctx.check(len(new) == 1, "the script writes one file")
                    f = new.pop()                       # moved to where the fit looks
                    to = os.path.basename(f).replace("_shifted", "_%ssh" % text(v))
                    ctx.loader.fs.files["pdfs/energy_mc/%s/%s" % (sub, to)] = ctx.loader.fs.files.pop(f)
        data = spectrum(ctx, [Geo(E, 0., 1., 6)], data=ctx.reals("data", (6,), 0, 100), name="data_mc")
        fc = config.GlobalFitConfig("global", OrderedDict())
        fc.add_par(par(ctx, E, kind, grid), "global")
        m = Visits([[v] for v in grid], False)
        f = fit.Fit({"energy": (0., 6.)}, capture(ctx, seen, False), fit_config=fc, data=data,
                    floating_backgrounds=spectra[:1], signal=spectra[1], minimiser=m, use_pre_made=use)
        f.fit()
        results[use] = seen
    for a, b in zip(results[False], results[True]):
        ctx.eq(b[1], a[1], "spectra made by the scripts give the fit that convolves on the fly")
