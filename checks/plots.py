"""C31: plots show the numbers they are made from."""
import types
from collections import OrderedDict

import numpy as np

from engine.registry import case
from checks.common import Geo, indices, same_state, spectrum, state, total
from checks.fit import onto
from checks.minimise import filled, bin_sum, limit_results, par_values


# -- stand-ins that record what is drawn ---------------------------------------------------------------
class Quiet(object):
    """Colours, titles, styles: anything may be called, nothing is looked at."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Quiet()

    def __call__(self, *a, **k):
        return Quiet()

    def __iter__(self):
        return iter([Quiet(), Quiet()])

    x0 = y0 = width = height = 1.
    N = 16


class Hist(Quiet):
    """A ROOT histogram: bins 1 to n, 0 below and n + 1 above."""

    def __init__(self, name, title, *axes):
        self.axes = [axes[i:i + 3] for i in range(0, len(axes), 3)]
        self.c = {}

    def _bin(self, d, x):
        n, lo, hi = self.axes[d]
        if x < lo:
            return 0
        for i in range(int(n)):
            if x < lo + (i + 1) * (hi - lo) / n:
                return i + 1
        return int(n) + 1

    def FindBin(self, *x):
        b = tuple(self._bin(d, v) for d, v in enumerate(x))
        return b[0] if len(b) == 1 else b

    def SetBinContent(self, *a):
        self.c[tuple(int(i) for i in a[:-1])] = a[-1]

    def AddBinContent(self, b, v=1.):
        self.c[(int(b),)] = self.c.get((int(b),), 0.) + v

    def GetBinContent(self, *b):
        return self.c.get(tuple(int(i) for i in b), 0.)

    def Fill(self, *a):
        n = len(self.axes)
        b = tuple(self._bin(d, a[d]) for d in range(n))
        self.c[b] = self.c.get(b, 0.) + (a[n] if len(a) > n else 1.)

    def Add(self, other, k=1.):
        for b, v in other.c.items():
            self.c[b] = self.c.get(b, 0.) + k * v


class Graph(Quiet):
    def __init__(self, n=0, x=(), y=()):
        self.p = dict((i, (x[i], y[i])) for i in range(n))
        self.sizes = (n, np.shape(x), np.shape(y))

    def SetPoint(self, i, x, y):
        self.p[int(i)] = (x, y)


class Root(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return 1 if n.startswith("k") else Quiet()


def root(ctx):
    r = ctx.loader.stubs.get("ROOT")
    if not isinstance(r, Root):
        r = Root("ROOT")
    r.TH1D = r.TH1F = r.TH2D = r.TH2F = Hist
    r.TGraph = Graph
    ctx.loader.stubs["ROOT"] = r
    ctx.loader.builtins["raw_input"] = lambda *a: ""
    return ctx.load("echidna.output.plot_root")


class Axes(Quiet):
    def __init__(self):
        self.hists, self.meshes, self.bands = [], [], []

    def fill_between(self, x, lo, hi, **k):
        self.bands.append(tuple(list(np.asarray(v, dtype=object).ravel()) for v in (x, lo, hi)))
        return Quiet()

    def hist(self, x, bins=None, **k):
        self.hists.append((list(np.asarray(x, dtype=object).ravel()), list(np.asarray(bins, dtype=object).ravel()),
                           list(np.asarray(k.pop("weights"), dtype=object).ravel()), k))
        return Quiet()

    def pcolormesh(self, x, y, c, **k):
        self.meshes.append(tuple(np.asarray(a, dtype=object) for a in (x, y, c)))
        return Quiet()


class Figure(Quiet):
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        return self.axes[-1]


def pyplot(ctx):
    plt = Quiet()
    plt.figs = []

    def figure(*a, **k):
        plt.figs.append(Figure())
        return plt.figs[-1]
    plt.figure = figure
    old = getattr(ctx.loader.stubs.get("matplotlib"), "pyplot", None)
    if "figs" in getattr(old, "__dict__", {}):      # used before: the loaded module draws there
        old.__dict__.update(plt.__dict__)
        return ctx.load("echidna.output.plot"), old
    m = types.ModuleType("matplotlib")
    m.pyplot, m.ticker, m.colors = plt, Quiet(), Quiet()
    ctx.loader.stubs["matplotlib"] = m
    return ctx.load("echidna.output.plot"), plt


# -- spectra -------------------------------------------------------------------------------------------
NAMES = ["energy_mc", "radial_mc", "time_mc"]


def spec(ctx, shape, name="spec", prefix="d", least=0.125, names=NAMES):
    gs = [Geo(names[k], ctx.real("%s_low" % names[k], -50, 50) if name == "spec" else 7. * k, 0.5, n)
          for k, n in enumerate(shape)]
    a = ctx.reals(prefix, shape, least, 100)
    return spectrum(ctx, gs, data=a.copy(), name=name), a, gs


def shown(ctx, h, gs, want, label):
    """The histogram has the axes gs and the contents want, and nothing outside them."""
    ctx.check(len(h.axes) == len(gs), label)
    for (n, lo, hi), g in zip(h.axes, gs):
        ctx.check(int(n) == g.bins, label)
        ctx.eq([lo, hi], [g.low, g.high], label)
    for i in indices([g.bins for g in gs]):
        ctx.eq(h.c.get(tuple(j + 1 for j in i), 0.), want[i], label)
    inside = set(tuple(j + 1 for j in i) for i in indices([g.bins for g in gs]))
    for b, v in h.c.items():
        if b not in inside:
            ctx.eq(v, 0., label)


def grid(values, shape):
    a = np.empty(shape, dtype=object)
    for i, v in zip(indices(shape), values):
        a[i] = v
    return a


SHAPES = [(3,), (2, 3), (2, 3, 2)]


@case("C31", quick=[dict(shape=s) for s in SHAPES])
def root_projection(ctx, shape):
    plot = root(ctx)
    s, a, gs = spec(ctx, shape, least=-5)
    before = state(ctx, s)
    k = ctx.choice("dim", range(len(shape)))
    graphical = ctx.choice("graphical", [False, True])
    h = plot.plot_projection(s, NAMES[k], graphical=graphical)
    shown(ctx, h, [gs[k]], grid(onto(a, [k]), (shape[k],)), "a projection is drawn bin by bin (ROOT)")
    same_state(ctx, s, before, "drawing leaves the spectrum alone")


@case("C31", quick=[dict(shape=s) for s in SHAPES[1:]])
def root_surface(ctx, shape):
    plot = root(ctx)
    s, a, gs = spec(ctx, shape, least=-5)
    before = state(ctx, s)
    j, k = ctx.choice("dims", [(j, k) for j in range(len(shape)) for k in range(len(shape)) if j != k])
    h = plot.plot_surface(s, NAMES[j], NAMES[k], graphical=ctx.choice("graphical", [False, True]))
    lo, hi = min(j, k), max(j, k)
    m = grid(onto(a, [lo, hi]), (shape[lo], shape[hi]))
    shown(ctx, h, [gs[j], gs[k]], m if j < k else m.T, "a surface is drawn bin by bin (ROOT)")
    same_state(ctx, s, before, "drawing leaves the spectrum alone")


def is_hist(ctx, h, g, want, label):
    """What a matplotlib histogram of x with weights shows in its bins."""
    x, bins, w, _ = h
    ctx.check(len(x) == len(w), label)
    ctx.eq(bins, [g.edge(i) for i in range(g.bins + 1)], label)
    got = [0.] * g.bins
    for v, y in zip(x, w):
        at = [i for i in range(g.bins) if v >= g.edge(i) and v < g.edge(i + 1)]
        ctx.check(len(at) == 1, label)
        if len(at) == 1:
            got[at[0]] = got[at[0]] + y
    ctx.eq(got, list(want), label)


@case("C31", quick=[dict(shape=s) for s in SHAPES])
def projection(ctx, shape):
    plot, plt = pyplot(ctx)
    s, a, gs = spec(ctx, shape, least=-5)
    before = state(ctx, s)
    k = ctx.choice("dim", range(len(shape)))
    fig = plot.plot_projection(s, NAMES[k], show_plot=ctx.choice("show", [False, True]))
    hs = [h for ax in fig.axes for h in ax.hists]
    ctx.check(len(hs) == 1, "a projection is drawn bin by bin (matplotlib)")
    for h in hs:
        is_hist(ctx, h, gs[k], onto(a, [k]), "a projection is drawn bin by bin (matplotlib)")
    same_state(ctx, s, before, "drawing leaves the spectrum alone")


@case("C31", quick=[dict(shape=(2, 2)), dict(shape=(2, 1, 3))])
def surface(ctx, shape):
    plot, plt = pyplot(ctx)
    s, a, gs = spec(ctx, shape)
    before = state(ctx, s)
    j, k = ctx.choice("dims", [(j, k) for j in range(len(shape)) for k in range(len(shape)) if j != k])
    fig = plot.plot_surface(s, NAMES[j], NAMES[k], show_plot=False)
    ms = [m for ax in fig.axes for m in ax.meshes]
    label = "a surface is drawn bin by bin (matplotlib)"
    ctx.check(len(ms) == 1, label)
    lo, hi = min(j, k), max(j, k)
    want = grid(onto(a, [lo, hi]), (shape[lo], shape[hi]))
    for x, y, c in ms:
        ctx.check(x.shape == y.shape == c.shape == want.shape, label)
        if x.shape == want.shape and c.shape == want.shape:
            for i in indices(want.shape):           # rows: the earlier dimension
                ctx.eq([x[i], y[i], c[i]], [gs[hi].centre(i[1]), gs[lo].centre(i[0]), want[i]], label)
    same_state(ctx, s, before, "drawing leaves the spectrum alone")


@case("C31", quick=[dict(shape=(2,), n=3), dict(shape=(2, 2), n=2)])
def spectral(ctx, shape, n):
    """Every spectrum, the sum of the backgrounds and the sum of all."""
    plot, plt = pyplot(ctx)
    k = ctx.choice("dim", range(len(shape)))
    ss, d = [], OrderedDict()
    for i in range(n):
        s, a, gs = spec(ctx, shape, name="s%d" % i, prefix="d%d_" % i)
        kind = ctx.choice("type%d" % i, ["signal", "background"] + (["data"] if i == 0 else []))
        if ctx.choice("read%d" % i, [False, True]):
            kind = "".join(list(kind))           # as read from a file: an equal string, another object
        ss.append((s, a, kind, state(ctx, s)))
        d[s._name] = dict(spectra=s, label="label %d" % i, type=kind)
    with_limit = ctx.choice("limit", [False, True])
    lim = spec(ctx, shape, name="limit", prefix="lim") if with_limit else None
    kw = {}
    if with_limit:
        stats = ctx.reals("stat", (shape[k],), -5, 100)
        kw["calculator"] = types.SimpleNamespace(get_chi_squared_per_bin=stats.copy)
    fig = plot.spectral_plot(d, NAMES[k], show_plot=False, limit=lim[0] if lim else None, **kw)
    hs = fig.axes[0].hists
    if kw:
        label = "the statistic of each bin is drawn below"
        ctx.check([len(a.hists) for a in fig.axes[1:]] == [1], label)
        for h in fig.axes[1].hists:
            is_hist(ctx, h, gs[k], stats, label)
    ctx.check(len(hs) == n + 2 + bool(lim), "every spectrum is drawn once, and the two sums")
    if len(hs) != n + 2 + bool(lim):
        return
    each = [onto(a, [k]) for _, a, _, _ in ss]
    zero = [0.] * shape[k]
    add = lambda l: [total(v[i] for v in l) for i in range(shape[k])] if l else zero
    by = dict((h[3].get("label"), h) for h in hs)
    labels = ["label %d" % i for i in range(n)] + ["Summed background", "Sum"] + (["limit"] if lim else [])
    ctx.check(sorted(map(str, by)) == sorted(labels), "each spectrum is drawn under its label")
    if len(by) != len(labels) or set(by) != set(labels):
        return
    for i, e in enumerate(each):
        is_hist(ctx, by["label %d" % i], gs[k], e, "each spectrum is drawn bin by bin")
    is_hist(ctx, by["Summed background"], gs[k], add([e for e, s in zip(each, ss) if s[2] == "background"]),
            "the backgrounds are summed")
    is_hist(ctx, by["Sum"], gs[k], add(each), "all spectra are summed")
    background = by["Summed background"][2]
    for x, lo, hi in fig.axes[0].bands:
        ctx.eq(x, [gs[k].centre(i) for i in range(shape[k])], "the band is the square root of the background")
        for b, l, h in zip(background, lo, hi):
            ctx.eq([h - b, b - l], [ctx.sqrt(b), ctx.sqrt(b)], "the band is the square root of the background")
    if lim:
        is_hist(ctx, by["limit"], gs[k], onto(lim[1], [k]), "the limit is drawn bin by bin")
    for s, a, kind, before in ss:
        same_state(ctx, s, before, "drawing leaves the spectrum alone")


@case("C31", quick=[dict(shape=(2,), n=3), dict(shape=(2, 2), n=2)])
def root_spectral(ctx, shape, n):
    """The same with ROOT."""
    plot = root(ctx)
    drawn, entries = [], {}

    class Drawn(Hist):
        def Draw(self, *a):
            drawn.append(self)

    class Legend(Quiet):
        def __init__(self, *a):
            entries.clear()

        def AddEntry(self, h, label, *a):
            entries[label] = h
    r = ctx.loader.stubs["ROOT"]
    r.TH1D = r.TH1F = Drawn
    r.TLegend = Legend
    k = ctx.choice("dim", range(len(shape)))
    ss, d = [], OrderedDict()
    for i in range(n):
        s, a, gs = spec(ctx, shape, name="s%d" % i, prefix="d%d_" % i)
        kind = ctx.choice("type%d" % i, ["signal", "background"] + (["data"] if i == 0 else []))
        if ctx.choice("read%d" % i, [False, True]):
            kind = "".join(list(kind))           # as read from a file: an equal string, another object
        ss.append((s, a, kind, state(ctx, s)))
        d[s._name] = dict(spectra=s, label="label %d" % i, type=kind, style=dict(color=1))
    lim = spec(ctx, shape, name="limit", prefix="lim", names=[m.replace("_mc", "_reco") for m in NAMES]) \
        if ctx.choice("limit", [False, True]) else None
    plot.spectral_plot(d, NAMES[k].split("_")[0], limit=lim[0] if lim else None, log_y=ctx.choice("log", [False, True]))
    ctx.check(len(drawn) == n + 2 + bool(lim), "every spectrum is drawn once, and the two sums (ROOT)")
    if len(drawn) != n + 2 + bool(lim):
        return
    each = [onto(a, [k]) for _, a, _, _ in ss]
    add = lambda l: [total(v[i] for v in l) for i in range(shape[k])] if l else [0.] * shape[k]
    want = dict(("label %d" % i, (e, "each spectrum is drawn bin by bin (ROOT)")) for i, e in enumerate(each))
    want["Background + Signal"] = add(each), "all spectra are summed (ROOT)"
    want["Background"] = add([e for e, s in zip(each, ss) if s[2] == "background"]), "the backgrounds are summed (ROOT)"
    if lim:
        want["Kamland-Zen Limit"] = onto(lim[1], [k]), "the limit is drawn bin by bin (ROOT)"
    for name, (w, label) in want.items():
        h = entries.get(name)
        ctx.check(any(h is x for x in drawn), label)
        if h is not None:
            shown(ctx, h, [gs[k]], grid(w, (shape[k],)), label)
    for s, a, kind, before in ss:
        same_state(ctx, s, before, "drawing leaves the spectrum alone")


@case("C31", quick=[dict(f=f) for f in ("low", "high", "bins")])
def root_spectral_refused(ctx, f):
    plot = root(ctx)
    a, b = spec(ctx, (2, 2), name="s0", prefix="a")[0], spec(ctx, (2, 2), name="s1", prefix="b")[0]
    k = ctx.choice("dim", [0, 1])
    p = b.get_config().get_par(NAMES[k])
    x = ctx.int("x", 1, 9) if f == "bins" else ctx.real("x", -9, 9)
    ctx.assume(x != getattr(p, "_" + f))
    setattr(p, "_" + f, x)
    both = [("s0", dict(spectra=a, type="signal", style=dict(color=1))),
            ("s1", dict(spectra=b, type="background", style=dict(color=2)))]
    d = OrderedDict(both if ctx.choice("first", [0, 1]) else both[::-1])
    ctx.refuses(plot.spectral_plot, d, NAMES[k].split("_")[0], label="spectra with other axes are refused (ROOT)")


# limits and numbers of bins whose quotients are not exact in floating point
AWKWARD = [(0., 2.1, 7), (1.1, 4.2, 11), (0.6, 2.5, 13), (-0.9, 1.2, 7)]


@case("C31", quick=[dict(axis=k) for k in range(len(AWKWARD))])
def rounded_axes(ctx, axis):
    """Axes on which the computed bin width is off by a rounding error (contents are symbolic, the axes are not)."""
    plot, plt = pyplot(ctx)
    low, high, n = AWKWARD[axis]
    gs = [Geo("energy_mc", low, (high - low) / n, n), Geo("radial_mc", 0., 0.5, 2)]
    gs[0].high = high
    two = ctx.choice("dims", [1, 2])
    shape = (n, 2)[:two]
    a = ctx.reals("d", shape, 0.125, 100)
    s = spectrum(ctx, gs[:two], data=a.copy(), name="s")
    fig = plot.plot_projection(s, "energy_mc", show_plot=False)
    for h in [h for ax in fig.axes for h in ax.hists]:
        is_hist(ctx, h, gs[0], onto(a, [0]), "a projection is drawn bin by bin (matplotlib)")
    if two == 2:
        fig = plot.plot_surface(s, "energy_mc", "radial_mc", show_plot=False)
        for x, y, c in [m for ax in fig.axes for m in ax.meshes]:
            ctx.check(x.shape == y.shape == c.shape == shape, "a surface is drawn bin by bin (matplotlib)")
    fig = plot.spectral_plot(OrderedDict(s=dict(spectra=s, label="label", type="signal")), "energy_mc", show_plot=False)
    for h in fig.axes[0].hists:
        is_hist(ctx, h, gs[0], onto(a, [0]) if h[3].get("label") != "Summed background" else [0.] * n,
                "each spectrum is drawn bin by bin")


@case("C31", quick=[dict(f=f) for f in ("low", "high", "bins")])
def spectral_refused(ctx, f):
    """Spectra that do not share the axis are not drawn on it."""
    plot, plt = pyplot(ctx)
    a, b = spec(ctx, (2, 2), name="s0", prefix="a")[0], spec(ctx, (2, 2), name="s1", prefix="b")[0]
    k = ctx.choice("dim", [0, 1])
    p = b.get_config().get_par(NAMES[k])
    x = ctx.int("x", 1, 9) if f == "bins" else ctx.real("x", -9, 9)
    ctx.assume(x != getattr(p, "_" + f))
    setattr(p, "_" + f, x)
    both = [("s0", dict(spectra=a, type="signal")), ("s1", dict(spectra=b, type="background"))]
    d = OrderedDict(both if ctx.choice("first", [0, 1]) else both[::-1])
    ctx.refuses(plot.spectral_plot, d, NAMES[k], show_plot=False, label="spectra with other axes are refused")


# -- fit and limit results -----------------------------------------------------------------------------
def par_geo(ctx, gs, name):
    p = gs.get_fit_config().get_par(name)
    n = p.get_bins()
    return Geo(name, p.get_low(), (p.get_high() - p.get_low()) / n, n)


@case("C31", quick=[dict(bins=b, per_bin=p) for b, p in (((2, 3), ()), ((3, 2), (2,)), ((2, 3, 2), ()))])
def stats_vs_pars(ctx, bins, per_bin):
    plot = root(ctx)
    gs, pars, s, p = filled(ctx, bins, per_bin)
    ssum = bin_sum(s, per_bin)
    j, k = ctx.choice("pars", [(j, k) for j in range(len(bins)) for k in range(len(bins)) if j != k])
    rest = [m for m in range(len(bins)) if m not in (j, k)]
    at = [ctx.choice("at%d" % m, range(bins[m])) for m in rest]
    kw = dict((pars[m][0].get_name(), pars[m][1][i]) for m, i in zip(rest, at))
    names = [pars[m][0].get_name() for m in (j, k)]
    for what in ("raw", "full"):
        f = plot.plot_raw_stats_vs_pars if what == "raw" else plot.plot_stats_vs_pars
        h = f(gs, names[0], names[1], graphical=False, **dict(kw))
        want = np.empty((bins[j], bins[k]), dtype=object)
        for x, y in indices((bins[j], bins[k])):
            i = [0] * len(bins)
            i[j], i[k] = x, y
            for m, v in zip(rest, at):
                i[m] = v
            want[x, y] = ssum[tuple(i)] + (p[tuple(i)] if what == "full" else 0.)
        shown(ctx, h, [par_geo(ctx, gs, n) for n in names], want,
              "the statistic against two parameters is drawn point by point")
    ctx.eq(gs._stats, s, "drawing leaves the results alone")
    ctx.eq(gs._penalty_terms, p, "drawing leaves the results alone")


@case("C31", quick=[dict(bins=(3,), per_bin=()), dict(bins=(3,), per_bin=(2,)), dict(bins=(2, 3), per_bin=())])
def stats_vs_one(ctx, bins, per_bin):
    plot = root(ctx)
    gs, pars, s, p = filled(ctx, bins, per_bin)
    ssum = bin_sum(s, per_bin)
    k = ctx.choice("par", range(len(bins)))
    name, values = pars[k][0].get_name(), pars[k][1]
    rest = [m for m in range(len(bins)) if m != k]
    at = [ctx.choice("at%d" % m, range(bins[m])) for m in rest]
    kw = dict((pars[m][0].get_name(), pars[m][1][i]) for m, i in zip(rest, at))

    def point(x):
        i = [0] * len(bins)
        i[k] = x
        for m, v in zip(rest, at):
            i[m] = v
        return tuple(i)
    is_graph(ctx, plot.plot_raw_stats_vs_par_scale(gs, name, graphical=False, **kw), values,
             [ssum[point(x)] for x in range(bins[k])], "the raw statistic against a parameter is drawn point by point")
    if not rest:
        is_graph(ctx, plot.plot_stats_vs_par_scale(gs, name, graphical=False), values,
                 [ssum[x] + p[x] for x in range(bins[k])], "the statistic against a parameter is drawn point by point")
        is_graph(ctx, plot.plot_penalty_term_vs_par_scale(gs, name, graphical=False), values,
                 [p[x] for x in range(bins[k])], "the penalty against a parameter is drawn point by point")
    ctx.eq(gs._stats, s, "drawing leaves the results alone")
    ctx.eq(gs._penalty_terms, p, "drawing leaves the results alone")


def is_graph(ctx, g, xs, ys, label):
    ctx.check(sorted(g.p) == list(range(len(xs))), label)
    if sorted(g.p) == list(range(len(xs))):
        ctx.eq([g.p[i][0] for i in range(len(xs))], list(xs), label)
        ctx.eq([g.p[i][1] for i in range(len(xs))], list(ys), label)


@case("C31", quick=[dict(bins=(2,), per_bin=(3,)), dict(bins=(2, 2), per_bin=(2, 3)), dict(bins=(2,), per_bin=(2, 2))])
def per_bin(ctx, bins, per_bin):
    plot = root(ctx)
    gs, pars, s, p = filled(ctx, bins, per_bin)
    i = ctx.choice("point", indices(bins))
    best = ctx.choice("best", [True, False])
    if best:
        for m, (par, vs) in enumerate(pars):
            par.set_best_fit(vs[i[m]])
            par.set_penalty_term(0.)
        kw = dict()
    else:
        kw = dict(par_values(pars, i), min_chisq=False)
    sc = gs.get_spectra_config()
    names = list(sc.get_pars())
    geo = [Geo(n, sc.get_par(n)._low, sc.get_par(n).get_width(), sc.get_par(n)._bins) for n in names]
    if len(per_bin) == 1:
        h = plot.plot_per_bin(gs, graphical=False, x_dim=names[0], **kw)
        shown(ctx, h, geo, np.asarray(s[i], dtype=object), "the statistic per bin is drawn bin by bin")
    else:
        j, k = ctx.choice("dims", [(0, 1), (1, 0)])
        h = plot.plot_per_bin(gs, graphical=False, x_dim=names[j], y_dim=names[k], **kw)
        want = np.asarray(s[i], dtype=object)
        shown(ctx, h, [geo[j], geo[k]], want if j < k else want.T, "the statistic per bin is drawn bin by bin")
    ctx.eq(gs._stats, s, "drawing leaves the results alone")


@case("C31", quick=[dict(scales=2, n=1), dict(scales=3, n=2)])
def limits(ctx, scales, n):
    plot = root(ctx)
    res, pars, xs, _ = limit_results(ctx, scales, n)
    for i, (p, _) in enumerate(pars):
        p.set_par(sigma=ctx.real("sigma%d" % i, 0.1, 10), prior=ctx.real("prior%d" % i, -10, 10))
    st, b, q = ctx.reals("st", (scales,)), ctx.reals("b", (scales, n)), ctx.reals("q", (scales, n))
    res._stats, res._best_fits, res._penalty_terms = st.copy(), b.copy(), q.copy()
    k = ctx.choice("par", range(n))
    name, par = pars[k][0].get_name(), pars[k][0]
    g = "the %s against the signal is drawn point by point"
    for again in range(2):
        is_graph(ctx, plot.plot_stats_vs_scale(res, graphical=False), xs,
                 [st[i] + total(q[i, m] for m in range(n)) for i in range(scales)], g % "statistic")
        is_graph(ctx, plot.plot_best_fit_vs_scale(res, name, graphical=False), xs, [b[i, k] for i in range(scales)],
                 g % "best fit")
        is_graph(ctx, plot.plot_sigma_best_fit_vs_scale(res, name, graphical=False), xs,
                 [(b[i, k] - par.get_prior()) / par.get_sigma() for i in range(scales)], g % "pull")
        is_graph(ctx, plot.plot_penalty_term_vs_scale(res, name, graphical=False), xs, [q[i, k] for i in range(scales)],
                 g % "penalty")
    ctx.eq(res._stats, st, "drawing leaves the results alone")
    ctx.eq(res._best_fits, b, "drawing leaves the results alone")
    ctx.eq(res._penalty_terms, q, "drawing leaves the results alone")


@case("C31", quick=[dict(n=1), dict(n=3)])
def chi_squared(ctx, n):
    """Recorded chi squareds against the signal counts, half-life and mass they belong to."""
    root(ctx)
    plot = ctx.load("echidna.output.plot_chi_squared_root")

    class Signal(object):
        _chi_squareds = [ctx.reals("chi", (n,), 0, 100), ctx.reals("pen", (n,), 0, 100), ctx.reals("count", (n,), 1, 100)]

    class Converter(object):
        def counts_to_half_life(self, c, *a, **k):
            return 7. / c

        def counts_to_eff_mass(self, c, *a, **k):
            return c * c
    sig = Signal()
    old = [ctx.snapshot(a) for a in sig._chi_squareds]
    chi, _, counts = old
    label = "one point per count, at its value and chi squared"
    is_graph(ctx, plot.chi_squared_vs_signal(sig), list(counts), list(chi), label)
    is_graph(ctx, plot.chi_squared_vs_half_life(sig, Converter()), [c / 7. for c in counts], list(chi), label)
    is_graph(ctx, plot.chi_squared_vs_mass(sig, Converter()), [c * c for c in counts], list(chi), label)
    for a, b in zip(sig._chi_squareds, old):
        ctx.eq(a, b, "drawing leaves the results alone")


@case("C31", quick=[dict(n=1), dict(n=3)])
def chi_squared_per_bin(ctx, n):
    """The statistic of each bin on the axis asked for."""
    plot = root(ctx)
    low, width = ctx.real("low", -10, 10), ctx.real("width", 0.1, 5)
    stats = ctx.reals("stat", (n,), -5, 100)
    calc = types.SimpleNamespace(get_chi_squared_per_bin=stats.copy)
    kw = dict(x_title="Radius (mm)") if ctx.choice("title", [False, True]) else {}
    h = plot.plot_chi_squared_per_bin(calc, n, low, low + n * width, **kw)
    shown(ctx, h, [Geo("x", low, width, n)], stats, "the statistic of each bin is drawn in its bin")
