"""C28: spectra and results written to HDF5 and read back."""
from collections import OrderedDict

import numpy as np

from engine.registry import case
from checks.common import Geo, NAMES, geometry, indices, same_state, spectra_config, spectrum, state
from checks.minimise import data_config, filled, grid_config, limit_results, search
from checks.params import RESULT_ATTRS, fit_par

PAR = ["_name", "_low", "_high", "_bins", "_prior", "_sigma", "_dimension", "_logscale", "_base", "_symmetric"]


def store(ctx):
    return ctx.load("echidna.output.store")


def same_pars(ctx, a, b, label, results=False):
    """Two configurations list the same parameters, in the same order."""
    ctx.check(list(a.get_pars()) == list(b.get_pars()), label + " (parameters and their order)")
    if list(a.get_pars()) != list(b.get_pars()):
        return
    for n in a.get_pars():
        p, q = a.get_par(n), b.get_par(n)
        ctx.check(type(p).__name__ == type(q).__name__, label + " (kind of parameter)")
        for f in PAR + (RESULT_ATTRS if results else []):
            if hasattr(p, f):
                ctx.eq(getattr(q, f), getattr(p, f), label)


def fit_config(ctx, name, spectra_name):
    c = ctx.load("echidna.core.config")
    lo = ctx.real(name + "_rlow", 0, 10)
    p = fit_par(ctx, "rate", lo, lo + ctx.real(name + "_rspan", 1, 10), 3, lo + ctx.real(name + "_prior", 0, 1),
                sigma=ctx.choice(name + "_sig", [None, 2.5]))
    p.set_best_fit(ctx.real(name + "_best", 0, 10))
    p.set_penalty_term(ctx.real(name + "_pen", 0, 10))
    return c.SpectraFitConfig(name, OrderedDict([("rate", p)]), spectra_name)


def full_spectrum(ctx, shape, p, name=None, background="back", with_fit=False, order=None, made_for=None):
    geos = [Geo((order or NAMES)[i], ctx.real("%slow%d" % (p, i), -10, 10), ctx.real("%sw%d" % (p, i), 0.1, 10), n)
            for i, n in enumerate(shape)]
    s = spectrum(ctx, geos, num_decays=ctx.real(p + "decays", 0, 1000), name=name or p + "spec", prefix=p + "d",
                 raw=ctx.int(p + "raw", 0, 1000), fit_config=fit_config(ctx, p + "fc", made_for or name or p + "spec") if with_fit else None)
    s._background_name = background
    return s


def compare(ctx, s, t, label):
    """t is the spectrum s, read back."""
    before = state(ctx, s)
    same_state(ctx, t, before, label)
    ctx.check(t._data.dtype == s._data.dtype or ctx.sym, label)
    ctx.check(list(t.get_config().get_pars()) == list(s.get_config().get_pars()), label + " (order of the dimensions)")
    ctx.check(t.get_config().get_name() == s.get_config().get_name(), label + " (name of the configuration)")
    if isinstance(s.get_style(), str):
        ctx.check(t.get_style() == s.get_style(), label + " (style)")
    else:
        ctx.eq(dict(t.get_style()), dict(s.get_style()), label + " (style)")
    a, b = s.get_fit_config(), t.get_fit_config()
    ctx.check((a is None) == (b is None), label + " (fit configuration)")
    if a is not None and b is not None:
        ctx.check(a.get_name() == b.get_name() and a._spectra_name == b._spectra_name, label + " (fit configuration)")
        same_pars(ctx, a, b, label + " (fit configuration)", True)
    ctx.eq(t.get_num_decays(), s.get_num_decays(), label)
    ctx.check(t.get_background_name() == s.get_background_name(), label)


@case("C28", quick=[dict(shape=(3,), fit=False), dict(shape=(3,), fit=True), dict(shape=(2, 3), fit=False),
                    dict(shape=(2, 1, 2), fit=True)], thorough=[dict(shape=(4, 3), fit=True), dict(shape=(2, 2, 2, 2), fit=True)])
def spectra(ctx, shape, fit):
    st = store(ctx)
    order = ctx.choice("order", [NAMES, NAMES[::-1]])
    s = full_spectrum(ctx, shape, "a", with_fit=fit, order=order,
                      made_for=ctx.choice("made_for", [None, "before_the_shift"]) if fit else None)
    extra = ctx.choice("extra", ["nothing", "style", "line", "plain", "rois", "bipo"])
    if extra == "plain":
        s.set_style({})
    if extra == "line":
        s.set_style("b-")
    if extra == "style":
        s.set_style({"color": "blue", "width": ctx.real("style_width", 0, 10)})
    elif extra == "rois":
        s._rois = {order[0]: {"low": ctx.real("roi_low", 0, 1), "high": ctx.real("roi_high", 2, 3),
                              "efficiency": ctx.real("roi_eff", 0, 1)}}
    elif extra == "bipo":
        s._bipo = ctx.choice("flag", [1, 2])
    before = state(ctx, s)
    st.dump("f.hdf5", s)
    same_state(ctx, s, before, "saving changes nothing")
    t = st.load("f.hdf5")
    compare(ctx, s, t, "a spectrum read back is the one saved")
    ctx.check(t.get_location() == "f.hdf5" if hasattr(t, "get_location") else t._location == "f.hdf5",
              "a spectrum read back knows its file")
    # neither the file nor the other spectrum follows a change of one of them
    for i in indices(shape):
        t._data[i] = t._data[i] + 1.
    t._num_decays = 1.
    same_state(ctx, s, before, "what is read back is independent of what was saved")
    s._data[indices(shape)[0]] = -5.
    u = st.load("f.hdf5")
    same_state(ctx, u, before, "a file keeps what was saved")
    same_state(ctx, st.load("f.hdf5"), before, "reading twice gives the same")


OPS = ["scale", "shrink", "roi", "cut", "rebin"]


@case("C28", quick=[dict(op=o) for o in OPS])
def after_operations(ctx, op):
    """Saving and operating on a spectrum commute."""
    st = store(ctx)
    mk = lambda: spectrum(ctx, [Geo("energy_mc", 0., 1., 4), Geo("radial_mc", 0., 2., 2)], name="s_mc",
                          num_decays=decays, data=ctx.arr(data.copy()), raw=5)
    decays = ctx.real("decays", 1, 100)
    data = np.asarray(ctx.reals("d", (4, 2), 1, 10))
    x = ctx.real("x", 1, 100)

    def act(s):
        if op == "scale":
            s.scale(x)
        elif op == "shrink":
            s.shrink(energy_mc_low=1., energy_mc_high=3.)
        elif op == "cut":
            s.cut(energy_mc_low=1., energy_mc_high=3.)
        elif op == "roi":
            s.shrink_to_roi(1., 3., "energy_mc")
        else:
            s.rebin((2, 1))
    a, b = mk(), mk()
    act(a)
    st.dump("a", a)
    st.dump("b", b)
    b = st.load("b")
    act(b)
    compare(ctx, st.load("a"), b, "saving before or after an operation gives the same")
    compare(ctx, a, st.load("a"), "a spectrum read back is the one saved")


@case("C28", quick=[dict()])
def background_names(ctx):
    st = store(ctx)
    name = ctx.choice("name", ["Te130_2n2b_mc", "Te130_2n2b_mix_x", "U238_reco", "U238"])
    s = full_spectrum(ctx, (2,), "a", name=name, background=None)
    if name == "U238":
        saved = full_spectrum(ctx, (2,), "b")
        options = ctx.choice("options", [dict(), dict(append=True), dict(append=True, overwrite=True),
                                         dict(append=True, group_name="other")])
        label = "a spectrum without a background name is refused"
        if ctx.choice("file", [False, True]):
            st.dump("f", saved)
            ctx.raises(ValueError, st.dump, "f", s, label=label, **options)
            compare(ctx, saved, st.load("f"), "a file stays as it was when a spectrum is refused")
            ctx.refuses(st.load, "f", group_name="other", label="nothing is written of a spectrum that is refused")
        else:
            files = set(ctx.loader.fs.files)
            new = "new%d" % len(files)
            ctx.raises(ValueError, st.dump, new, s, label=label, **options)
            ctx.check(set(ctx.loader.fs.files) == files, "nothing is written of a spectrum that is refused")
        return
    st.dump("f", s)
    compare(ctx, s, st.load("f"), "a spectrum read back is the one saved")
    ctx.check(st.load("f").get_background_name() == name.split("_" + ("mc" if "mc" in name else "mix" if "mix" in name
                                                                      else "reco"))[0],
              "the background name is taken from the spectrum's name")


@case("C28", quick=[dict()])
def groups(ctx):
    """Several spectra in one file."""
    st = store(ctx)
    a, b, c = [full_spectrum(ctx, (2,), p) for p in "abc"]
    st.dump("f", a, group_name="one")
    st.dump("f", b, append=True, group_name="two")
    compare(ctx, a, st.load("f", group_name="one"), "appending leaves the spectra already saved")
    compare(ctx, b, st.load("f", group_name="two"), "each spectrum of a file is read back from its group")
    what = ctx.choice("what", ["taken", "overwrite", "overwrite_new", "overwrite_prefix", "prefix", "replace", "missing", "no_file", "default"])
    if what == "taken":
        ctx.refuses(st.dump, "f", c, append=True, group_name="two", label="a group is not overwritten unasked")
    elif what == "overwrite":
        st.dump("f", c, append=True, overwrite=True, group_name="two")
        b = c
    elif what == "overwrite_new":
        st.dump("f", c, append=True, overwrite=True, group_name="three")
        compare(ctx, c, st.load("f", group_name="three"), "each spectrum of a file is read back from its group")
    elif what in ("overwrite_prefix", "prefix"):         # names that begin, or go on, like others
        for name in ("tw", "two2", "o"):
            st.dump("f", c, append=True, overwrite=what != "prefix", group_name=name)
            compare(ctx, c, st.load("f", group_name=name), "each spectrum of a file is read back from its group")
    elif what == "replace":
        st.dump("f", c, group_name="two")
        ctx.refuses(st.load, "f", group_name="one", label="without append the file is replaced")
        compare(ctx, c, st.load("f", group_name="two"), "each spectrum of a file is read back from its group")
        return
    elif what == "missing":
        ctx.refuses(st.load, "f", group_name="three", label="a spectrum that was not saved cannot be read")
        ctx.refuses(st.load, "f", label="a spectrum that was not saved cannot be read")
    elif what == "no_file":
        ctx.refuses(st.load, "g", group_name="one", label="a spectrum that was not saved cannot be read")
    else:
        st.dump("f", c, append=True)
        compare(ctx, c, st.load("f"), "each spectrum of a file is read back from its group")
    compare(ctx, a, st.load("f", group_name="one"), "the other spectra of the file stay")
    compare(ctx, b, st.load("f", group_name="two"), "the other spectra of the file stay")


# -- results ---------------------------------------------------------------------------------------
def rearranged(ctx, bins, only=None):
    """A fit configuration whose parameters are listed in any order."""
    fc, pars = grid_config(ctx, bins)
    if only in ("global", "mixed"):
        pars = pars[1:]
    if only == "mixed":                        # the dimensions take turns
        par = ctx.load("echidna.core.parameter")
        for d, n in (("radial_mc", 2), ("energy_mc", 3)):
            pars.append((par.ResolutionParameter(d + "_resolution", 0.1, None, 0.1, 0.3, n, d), [0.1, 0.2, 0.3][:n]))
        if ctx.choice("turn", [True, False]):
            pars[1:3] = pars[2:0:-1]
    c = ctx.load("echidna.core.config").GlobalFitConfig("fit", OrderedDict())
    k = ctx.choice("rotate", range(len(pars)))
    pars = pars[k:] + pars[:k]
    for p, v in pars:
        c.add_par(p, "spectra" if "rate" in p.get_name() else "global")
        p.set_best_fit(ctx.real("best_" + p.get_name()))
        p.set_penalty_term(ctx.real("pen_" + p.get_name(), 0))
    return c, pars


FITS = [dict(bins=(3,), per_bin=()), dict(bins=(2, 2), per_bin=()), dict(bins=(2, 2, 2), per_bin=()),
        dict(bins=(2, 2, 3), per_bin=(), only="global"), dict(bins=(2, 3), per_bin=(2,), only="global"),
        dict(bins=(2, 2, 2), per_bin=(), only="mixed"), dict(bins=(2, 2), per_bin=(3,)), dict(bins=(2,), per_bin=(2, 2)), dict(bins=(2, 3, 2), per_bin=(2,))]


@case("C28", quick=FITS, thorough=[dict(bins=(3, 4, 3), per_bin=()), dict(bins=(3, 3), per_bin=(3, 2))])
def fit_results(ctx, bins, per_bin, only=None):
    st = store(ctx)
    fc, pars = rearranged(ctx, bins, only)
    shape = tuple(p.get_bins() for p, v in pars)
    sc = data_config(ctx, per_bin or (2,))
    gs = search(ctx, fc, sc, bool(per_bin), True, name="mine")
    s, q = ctx.reals("s", shape + per_bin), ctx.reals("p", shape)
    gs.set_stats(s)
    gs.set_penalty_terms(q)
    gs._resets = ctx.int("resets", 0, 10)
    before = ctx.snapshot(s), ctx.snapshot(q)
    st.dump_fit_results("f", gs)
    t = st.load_fit_results("f")
    label = "fit results read back are those saved"
    ctx.check(type(t).__name__ == "GridSearch" and t.get_name() == "mine", label)
    for i in indices(shape):
        ctx.eq(t.get_raw_stat(i), before[0][i], label)
    for i in indices(shape):
        ctx.eq(t.get_penalty_term(i), before[1][i], label)
    ctx.eq(t.get_stats(), gs.get_stats(), label)
    ctx.eq(t._resets, gs._resets, label)
    ctx.check(bool(t._per_bin) == bool(per_bin), label)
    ctx.check(t.get_fit_config().get_name() == "fit" and t.get_spectra_config().get_name() == sc.get_name(),
              label + " (names)")
    same_pars(ctx, fc, t.get_fit_config(), label, True)
    same_pars(ctx, sc, t.get_spectra_config(), label)
    ctx.check([p.get_name() for p in t.get_fit_config().get_global_pars()] ==
              [p.get_name() for p in fc.get_global_pars()], label + " (global parameters)")
    for n in fc.get_pars():
        ctx.eq(t.get_summary()[n], gs.get_summary()[n], label + " (summary)")
    for i in indices(shape):
        ctx.eq(t.get_stat(i), gs.get_stat(i), label)
    for i in indices(shape):
        ctx.eq(gs.get_raw_stat(i), before[0][i], "saving changes nothing")
        ctx.eq(gs.get_penalty_term(i), before[1][i], "saving changes nothing")
        t.set_penalty_term(3., i)
    u = st.load_fit_results("f")
    for i in indices(shape):
        ctx.eq(u.get_penalty_term(i), before[1][i], "a file keeps what was saved")


@case("C28", quick=[dict(scales=2, n=0, fits="no", per_bin=()), dict(scales=3, n=1, fits="no", per_bin=()),
                    dict(scales=2, n=2, fits="all", per_bin=()), dict(scales=3, n=3, fits="some", per_bin=()),
                    dict(scales=2, n=2, fits="all", per_bin=(2,)),
                    dict(scales=2, n=3, fits="all", per_bin=(), only="global")],
      thorough=[dict(scales=4, n=3, fits="some", per_bin=(2,))])
def limits(ctx, scales, n, fits, per_bin, only=None):
    import copy
    st = store(ctx)
    r, config = ctx.load("echidna.fit.fit_results"), ctx.load("echidna.core.config")
    if n:
        fc, pars = rearranged(ctx, (2, 3, 2)[:n], only)
    else:
        fc, pars = config.GlobalFitConfig("fit", OrderedDict()), []
    low, step = ctx.real("slow", 0, 10), ctx.real("sstep", 0.1, 10)
    rate = fit_par(ctx, "rate", low, low + (scales - 1) * step, scales, low)
    lc = config.SpectraFitConfig("signal_fit", OrderedDict(rate=rate), "signal")
    sc = data_config(ctx, per_bin or (2,))
    res = r.LimitResults(fc, sc, lc, "lim")
    some = ctx.choice("values", ["any", "zero"]) if n else "any"
    res._stats = ctx.reals("ls", (scales,) + per_bin)
    for i in range(scales):
        for p, v in pars:
            res.set_best_fit(i, ctx.real("b%d_%s" % (i, p.get_name())) if some == "any" else 0., p.get_name())
            res.set_penalty_term(i, ctx.real("q%d_%s" % (i, p.get_name())) if some == "any" else 0., p.get_name())
        if fits == "all" or (fits == "some" and i == 1):
            gs = search(ctx, copy.deepcopy(fc), sc, bool(per_bin), True)
            shape = tuple(p.get_bins() for p, v in pars)
            gs.set_stats(ctx.reals("s%d" % i, shape + per_bin))
            gs.set_penalty_terms(ctx.reals("p%d" % i, shape))
            gs._resets = i
            for p, v in pars:
                g = gs.get_fit_config().get_par(p.get_name())
                g.set_best_fit(res.get_best_fit(i, p.get_name()))
                g.set_penalty_term(res.get_penalty_term(i, p.get_name()))
            res.set_fit_result(i, gs)
    append = ctx.choice("append", [False, True])
    if append:
        other = full_spectrum(ctx, (2,), "o")
        st.dump("f", other)
    st.dump_limit_results("f", res, append=append)
    t = st.load_limit_results("f")
    if append:
        compare(ctx, other, st.load("f"), "appending leaves what the file holds")
    label = "limit results read back are those saved"
    ctx.check(type(t).__name__ == "LimitResults" and t.get_name() == "lim", label)
    ctx.eq(t.get_stats(), res.get_stats(), label)
    ctx.eq(t._best_fits, res._best_fits, label)
    ctx.eq(t._penalty_terms, res._penalty_terms, label)
    ctx.eq(t.get_full_stats(), res.get_full_stats(), label)
    ctx.eq(list(np.asarray(t.get_scales()).ravel()), list(np.asarray(res.get_scales()).ravel()), label + " (scalings)")
    same_pars(ctx, fc, t.get_fit_config(), label, True)
    same_pars(ctx, sc, t.get_spectra_config(), label)
    same_pars(ctx, lc, t._limit_config, label)
    ctx.check(t._limit_config.get_name() == "signal_fit" and t._limit_config._spectra_name == "signal" and
              t.get_fit_config().get_name() == "fit" and t.get_spectra_config().get_name() == sc.get_name(),
              label + " (names)")
    for i in range(scales):
        ctx.eq(t.get_full_stat(i), res.get_full_stat(i), label)
        for p, v in pars:
            ctx.eq(t.get_best_fit(i, p.get_name()), res.get_best_fit(i, p.get_name()), label)
            ctx.eq(t.get_penalty_term(i, p.get_name()), res.get_penalty_term(i, p.get_name()), label)
        a, b = res._fit_results[i], t._fit_results[i]
        ctx.check((a is None) == (b is None), label + " (fits kept)")
        if a is None or b is None:
            continue
        for j in indices(tuple(p.get_bins() for p, v in pars)):
            ctx.eq(b.get_raw_stat(j), a.get_raw_stat(j), label + " (fits kept)")
            ctx.eq(b.get_stat(j), a.get_stat(j), label + " (fits kept)")
            ctx.eq(b.get_penalty_term(j), a.get_penalty_term(j), label + " (fits kept)")
        ctx.eq(b.get_stats(), a.get_stats(), label + " (fits kept)")
        ctx.eq(b._resets, a._resets, label + " (fits kept)")
        for p, v in pars:
            ctx.eq(b.get_summary()[p.get_name()], a.get_summary()[p.get_name()], label + " (fits kept)")


@case("C28", quick=[dict()])
def inconsistent(ctx):
    """Results the arrays of which do not fit the configuration are not read."""
    st = store(ctx)
    gs, pars, s, q = filled(ctx, (2, 3), ())
    st.dump_fit_results("f", gs)
    g = ctx.loader.fs.files["f"]["fit_results"]
    del g._items["stats"]
    g.create_dataset("stats", data=ctx.reals("bad", ctx.choice("shape", [(2, 2), (2,), (2, 3, 3), (3,)])))
    ctx.raises(ValueError, st.load_fit_results, "f", label="statistics of another shape are refused")
    ctx.refuses(st.load_limit_results, "f", label="results that were not saved cannot be read")
    ctx.refuses(st.load_fit_results, "g", label="results that were not saved cannot be read")
    st.dump_fit_results("h", gs)
    ctx.refuses(st.dump_fit_results, "h", gs, append=True, label="results are not overwritten unasked")
    u = st.load_fit_results("h")
    for i in indices((2, 3)):
        ctx.eq(u.get_raw_stat(i), s[i], "a refused request leaves the file as it was")


class Holder(object):
    pass


@case("C28", quick=[dict()])
def arrays(ctx):
    """Any object mostly made of arrays."""
    st = store(ctx)
    a, b = Holder(), Holder()
    a.grid, a.flat = ctx.reals("g", (2, 3)), ctx.reals("f", (4,))
    a.number, a.label, a.none = ctx.real("n"), "text", None
    a.zero, a.off, a.blank = 0., 0, ""
    b.grid, b.flat = ctx.arr(np.zeros((2, 3))), ctx.arr(np.zeros((4,)))
    b.number, b.label, b.none, b.other = 0., "", None, 7.
    b.zero, b.off, b.blank = 3., 1, "filled"
    before = dict((k, ctx.snapshot(v)) for k, v in a.__dict__.items())
    st.dump_ndarray("f", a)
    r = st.load_ndarray("f", b)
    ctx.check(r is b, "the object given is the one filled")
    for k in ("grid", "flat", "number", "label", "zero", "off", "blank"):
        ctx.eq(getattr(b, k), before[k], "attributes read back are those saved")
        ctx.eq(getattr(a, k), before[k], "saving changes nothing")
    ctx.check(b.none is None and b.other == 7., "attributes that were not saved stay")


@case("C28", quick=[dict(shape=(3,)), dict(shape=(2, 3)), dict(shape=(1, 2))])
def old_files(ctx, shape):
    """Files written by the versions before configurations had names."""
    st = store(ctx)
    h5 = ctx.loader.stubs["h5py"]
    data = ctx.reals("d", shape)
    want = OrderedDict()
    with h5.File("old", "w") as f:
        for n, b in zip(NAMES, shape):
            low = ctx.real(n + "_low", -10, 10)
            want[n] = (low, low + b * ctx.real(n + "_width", 0.1, 10), b)
            for k, v in zip(("low", "high", "bins"), want[n]):
                f.attrs["pars:%s:%s" % (n, k)] = v
        f.attrs["name"], f.attrs["num_decays"], f.attrs["raw_events"] = "old_mc", ctx.real("decays", 0, 100), 3
        style = ctx.choice("style", [None, {"color": "red", "width": 2, "alpha": 0.5}, {"color": "green"},
                                    {"label": " 2n2b of Te ", "width": 0}])
        f.attrs["style"], f.attrs["rois"] = st.dict_to_string(style) if style else "", ""
        bipo = ctx.choice("bipo", [None, 0, 1])
        if bipo is not None:
            f.attrs["bipo"] = bipo
        f.create_dataset("data", data=data, compression="gzip")
        decays = f.attrs["num_decays"]
    s = st.load("old")
    if style:
        ctx.check(dict(s.get_style()) == style and type(dict(s.get_style()).get("width", 0)) is int,
                  "a spectrum of an old file is read (style)")
    label = "a spectrum of an old file is read"
    ctx.eq(s._data, data, label)
    ctx.eq(s.get_num_decays(), decays, label)
    ctx.check(s._name == "old_mc" and s._raw_events == 3 and s._bipo == (bipo or 0), label)
    ctx.check(list(s.get_config().get_pars()) == list(want), label)
    for n in want:
        p = s.get_config().get_par(n)
        ctx.eq([p._low, p._high, p._bins], list(want[n]), label)
    st.dump("new", s)
    compare(ctx, s, st.load("new"), "a spectrum of an old file can be saved as new")


@case("C28", quick=[dict()])
def before_bipo(ctx):
    """Files from before there was a bipo cut."""
    st = store(ctx)
    s = full_spectrum(ctx, (2, 2), "a", with_fit=ctx.choice("fit", [False, True]))
    st.dump("f.hdf5", s)
    for g in ctx.loader.fs.files["f.hdf5"].values():
        del g.attrs["bipo"]
    compare(ctx, s, st.load("f.hdf5"), "a spectrum of a file without the bipo flag is read")


@case("C28", quick=[dict()])
def strings(ctx):
    """The text form of dictionaries in old files."""
    st = store(ctx)
    d = OrderedDict(ctx.choice("dict", [[("a", 1)], [("a", 1.5), ("b", "text")], [("x", "y"), ("n", -3), ("z", 1e-5), ("m", 0)]]))
    back = st.string_to_dict(st.dict_to_string(d))
    ctx.check(dict(back) == dict(d) and all(type(back[k]) is type(d[k]) for k in d if k in back),
              "a dictionary is read back from its text")
    ctx.raises(TypeError, lambda: st.dict_to_string({"a": [1]}), label="other values have no text")
    ctx.raises(TypeError, lambda: st.string_to_dict("a:1;list"), label="other values have no text")
