"""C32: the scripts do to files what the library does to spectra."""
import copy
import os
import shutil
import sys
import tempfile
import types

import numpy as np

from engine.registry import case as any_case
from checks import fillspec
from checks.common import Geo, indices, same_state, spectrum, state
from checks.convolve import positive_splines
from checks.extract import Ds, Mc, Particle, Vec
from checks.params import Yaml
from checks.plots import Hist, Quiet, Root, pyplot
from checks.store import compare


def case(*a, **k):
    """Every run of a script is a process of its own."""
    return any_case(*a, after=False, **k)


DIR = "echidna/scripts/"


def arg(v):
    return repr(float(v))


def run(ctx, script, argv):
    """True when the script ran to its end without reporting an error."""
    errors, ours = [], []

    def report(*a, **k):
        e = sys.exc_info()[1]
        (ours if type(e).__module__.startswith("engine") else errors).append(e)

    log = types.SimpleNamespace(info=lambda *a, **k: None, debug=lambda *a, **k: None, warning=lambda *a, **k: None,
                                exception=report, error=report)
    ctx.load("echidna.utilities").start_logging = lambda *a, **k: log
    try:
        ctx.loader.run_script(DIR + script + ".py", argv)
    except SystemExit as e:
        if e.code:
            return False
    if ours:
        raise ours[0]
    return not errors


PATHS = ["dir/ex.hdf5", "ex.hdf5", "/data/v1.2/ex.v2.hdf5", "./ex.hdf5", "../d.d/ex"]


def place(path):
    d, f = os.path.split(os.path.normpath(path))
    return d, os.path.splitext(f)[0]


def written(ctx, before, label):
    new = sorted(set(ctx.loader.fs.files) - set(before))
    ctx.check(len(new) == 1, label)
    return new[0] if len(new) == 1 else None


def beside(ctx, out, path, dest, label):
    d, stem = place(path)
    if dest:
        d = os.path.normpath(dest)
    ctx.check(os.path.split(out)[0] == d and os.path.split(out)[1].startswith(stem + "_") and out.endswith(".hdf5"), label)


def carries(ctx, before, path, value, unit):
    """The value and its unit are in the name of the new file."""
    new = sorted(set(ctx.loader.fs.files) - set(before))
    stem, label = place(path)[1] + "_", "the name of the new file carries the value"
    if len(new) == 1:
        f = os.path.split(new[0])[1]
        try:
            v = float(f[len(stem):-len(unit + ".hdf5")])
        except ValueError:
            v = None
        ctx.check(f.startswith(stem) and f.endswith(unit + ".hdf5") and v == value, label)


def source(ctx, path, shape=(3, 2), names=("energy_mc", "radial_mc"), name="s", lo=0.125, lows=(0., 0., 0.)):
    """A spectrum in a file."""
    s = spectrum(ctx, [Geo(n, lows[i], (0.5, 2., 1.)[i], shape[i]) for i, n in enumerate(names)],
                 data=ctx.reals(name, shape, lo, 100), num_decays=ctx.real(name + "decays", 1, 100), name=name + "_mc", raw=9)
    s._background_name = name
    ctx.load("echidna.output.store").dump(path, s)
    return s


def judge(ctx, path, before, want, label, dest=None, exact=None):
    store = ctx.load("echidna.output.store")
    where = "the result is written where it should be"
    out = written(ctx, before, where)
    if out is None:
        return
    if exact:
        ctx.check(out == os.path.normpath(exact), where)
    else:
        beside(ctx, out, path, dest, where)
    got = store.load(out)
    got._location = want._location
    compare(ctx, want, got, label)


def original(ctx, path, s):
    same_state(ctx, ctx.load("echidna.output.store").load(path), state(ctx, s), "the input file is left alone")


@case("C32", quick=[dict()])
def scaled(ctx):
    store, scale = ctx.load("echidna.output.store"), ctx.load("echidna.core.scale")
    path = ctx.choice("path", PATHS)
    par, shape = ctx.choice("par", [("energy_mc", (4, 1)), ("radial_mc", (1, 4))])
    s = source(ctx, path, shape)
    positive_splines(ctx)
    dest = ctx.choice("dest", [None, "/tmp", "/tmp/"])
    f = ctx.choice("factor", [1.1, 2., 0.5] if path == PATHS[0] else [1.1])
    before = list(ctx.loader.fs.files)
    c = scale.Scale()
    c.set_scale_factor(f)
    want = c.scale(store.load(path), par)
    ok = run(ctx, "dump_scaled", ["-p", par, "-f", path, "-s", arg(f)] + (["-d", dest] if dest else []))
    ctx.check(ok, "the script reports no error")
    judge(ctx, path, before, want, "dump_scaled scales the spectrum of the file", dest)
    carries(ctx, before, path, f, "sc")
    original(ctx, path, s)


@case("C32", quick=[dict()])
def shifted(ctx):
    store, shift = ctx.load("echidna.output.store"), ctx.load("echidna.core.shift")
    path = ctx.choice("path", PATHS)
    s = source(ctx, path, (3, 2))
    par = ctx.choice("par", ["energy_mc", "radial_mc"])
    by = ctx.choice("by", [0., 0.5, -0.5, 2., -4.])
    before = list(ctx.loader.fs.files)
    c = shift.Shift()
    c.set_shift(by)
    if par == "radial_mc" and by % 2 or by % 0.5:
        return
    want = c.shift(store.load(path), par)
    ctx.check(run(ctx, "dump_shifted", ["-d", par, "-f", path, "-s", arg(by)]), "the script reports no error")
    judge(ctx, path, before, want, "dump_shifted shifts the spectrum of the file")
    original(ctx, path, s)


@case("C32", quick=[dict()])
def shrunk(ctx):
    store = ctx.load("echidna.output.store")
    path = ctx.choice("path", PATHS)
    bounds = ctx.choice("bounds", ["low", "up", "both", "zero", "below"])
    s = source(ctx, path, (3, 2), lows=(-0.5, 0.) if bounds == "below" else (0., 0.))
    out = ctx.choice("output", [None, "other/o.hdf5"])
    low, high = {"energy_mc": (0.5, 1.), "radial_mc": (2., 4.)}, {"energy_mc": (1., 1.5), "radial_mc": (2., 4.)}
    pars = ctx.choice("pars", [["energy_mc"], ["radial_mc"], ["energy_mc", "radial_mc"], ["radial_mc", "energy_mc"]])
    if bounds == "below":
        low["energy_mc"], high["energy_mc"] = (-0.5, 1.), (0., 0.)
    argv, kw = ["-i", path, "-p"] + pars + (["-o", out] if out else []), {}
    if bounds != "up":
        lo = [0. if bounds == "zero" else low[p][0] for p in pars]
        argv += ["-l"] + [arg(v) for v in lo]
        kw.update((p + "_low", v) for p, v in zip(pars, lo))
    if bounds in ("up", "both", "below"):
        up = [high[p][0] if bounds == "up" and p != "radial_mc" else high[p][1] for p in pars]
        argv += ["-u"] + [arg(v) for v in up]
        kw.update((p + "_high", v) for p, v in zip(pars, up))
    before = list(ctx.loader.fs.files)
    want = store.load(path)
    want.shrink(**kw)
    ctx.check(run(ctx, "dump_shrink", argv), "the script reports no error")
    judge(ctx, path, before, want, "dump_shrink shrinks the spectrum of the file", exact=out)
    original(ctx, path, s)


@case("C32", quick=[dict()])
def rebinned(ctx):
    store = ctx.load("echidna.output.store")
    path = ctx.choice("path", PATHS)
    s = source(ctx, path, (4, 2, 3), ("energy_mc", "radial_mc", "time_mc"))
    out = ctx.choice("output", [None, "other/o.hdf5"])
    bins = ctx.choice("bins", [(2, 2, 3), (1, 1, 1), (4, 1, 3), (2, 2, 1)])
    before = list(ctx.loader.fs.files)
    want = store.load(path)
    want.rebin(bins)
    ctx.check(run(ctx, "rebin", ["-i", path, "-b"] + [str(b) for b in bins] + (["-o", out] if out else [])),
              "the script reports no error")
    judge(ctx, path, before, want, "rebin rebins the spectrum of the file", exact=out)
    original(ctx, path, s)


@case("C32", quick=[dict(n=2), dict(n=3)])
def combined(ctx, n):
    store = ctx.load("echidna.output.store")
    paths = ["a/one.hdf5", "two.hdf5", "/b/one.hdf5"][:n]
    ss = [source(ctx, p, name="s%d" % i) for i, p in enumerate(paths)]
    orders = [list(range(n)), list(range(n))[::-1]]
    if n == 2:                                   # a file may be given again
        orders += [[0, 1, 0], [0, 0]]
    order = ctx.choice("order", orders)
    before = list(ctx.loader.fs.files)
    want = store.load(paths[order[0]])
    for i in order[1:]:
        want.add(store.load(paths[i]))
    ctx.check(run(ctx, "combine_hdf5", ["-f"] + [paths[i] for i in order]), "the script reports no error")
    judge(ctx, paths[order[0]], before, want, "combine_hdf5 adds the spectra of the files", exact="combined.hdf5")
    for p, s in zip(paths, ss):
        original(ctx, p, s)


def smearers(ctx, script, option, gaus):
    sm = ctx.load("echidna.core.smear")
    kw = dict(poisson=not gaus) if script == "dump_smeared_energy" else {}
    if option and option[0] in ("-r", "--energy_resolution"):
        e = sm.EnergySmearRes(**kw)
        e.set_resolution(float(option[1]))
    else:
        e = sm.EnergySmearLY(**kw)
        if option or script == "dump_smeared_energy":
            e.set_resolution(float(option[1]) if option else 200.)
    return {"energy": e, "radial": sm.RadialSmear()}


NAMES = [("energy_mc", "radial_mc"), ("radial_reco", "energy_reco"), ("energy_mc", "z_pos_mc"), ("energy_mc", "energy_reco")]


def is_smeared(script, n):
    return n.startswith("energy") or script == "dump_smeared" and n.startswith("radial")


@case("C32", quick=[dict(script=s) for s in ("dump_smeared", "dump_smeared_energy")])
def smeared(ctx, script):
    store = ctx.load("echidna.output.store")
    path = ctx.choice("path", PATHS[:3])
    names = ctx.choice("names", NAMES)
    s = source(ctx, path, (3, 2), names)
    option = ctx.choice("option", [[], ["-r", "0.3"], ["--energy_resolution", "0.305"]] +
                        ([["-l", "20."], ["-l", "150.5"]] if script == "dump_smeared_energy" else []))
    gaus = script == "dump_smeared_energy" and ctx.choice("gaus", [False, True])
    dest = ctx.choice("dest", [None, "/tmp"]) if script == "dump_smeared_energy" else None
    by = smearers(ctx, script, option, gaus)
    before = list(ctx.loader.fs.files)
    want = store.load(path)
    for n in names:
        if is_smeared(script, n):
            want = by[n.split("_")[0]].weighted_smear(want, par=n)
    ok = run(ctx, script, [path] + option + (["-g"] if gaus else []) + (["-d", dest] if dest else []))
    ctx.check(ok, "the script reports no error")
    judge(ctx, path, before, want, "the smearing scripts smear the spectrum of the file", dest)
    if script == "dump_smeared_energy":
        rs = option and option[0] != "-l"
        carries(ctx, before, path, float(option[1]) if option else 200., "rs" if rs else "ly")
    original(ctx, path, s)


@case("C32", quick=[dict(script=s) for s in ("dump_smeared", "dump_smeared_energy")])
def random(ctx, script):
    """Every dimension is smeared once, by the method asked for (the draws are replaced by a factor)."""
    store, sm = ctx.load("echidna.output.store"), ctx.load("echidna.core.smear")
    calls = []

    def stand_in(kind, k):
        def smear(self, spectrum, par=kind + "_mc"):
            calls.append((type(self).__name__, self.get_resolution(), getattr(self, "_poisson_smear", None), par))
            t = copy.deepcopy(spectrum)
            t._data = t._data * k
            return t
        return smear
    for c, kind, k in (("EnergySmearLY", "energy", 2.), ("EnergySmearRes", "energy", 3.), ("RadialSmear", "radial", 5.)):
        getattr(sm, c).random_smear = stand_in(kind, k)
    names = ctx.choice("names", NAMES)
    s = source(ctx, "dir/ex.hdf5", (3, 2), names)
    option = ctx.choice("option", [[], ["-r", "0.3"]])
    by = smearers(ctx, script, option, False)
    before = list(ctx.loader.fs.files)
    want = store.load("dir/ex.hdf5")
    todo = [n for n in names if is_smeared(script, n)]
    for n in todo:
        want = by[n.split("_")[0]].random_smear(want, par=n)
    expected, calls[:] = list(calls), []
    ctx.check(run(ctx, script, ["-m", "random"] + option + ["dir/ex.hdf5"]), "the script reports no error")
    ctx.check(sorted(calls) == sorted(expected), "random smearing is done when asked for, once for every dimension")
    judge(ctx, "dir/ex.hdf5", before, want, "the smearing scripts smear the spectrum of the file")


BAD = [("dump_scaled", ["-p", "energy_mc", "-s", "2"]), ("dump_scaled", ["-p", "energy_mc", "-f", "ex.hdf5"]),
       ("dump_scaled", ["-f", "ex.hdf5", "-s", "2"]), ("dump_scaled", ["-p", "energy_mc", "-f", "ex.hdf5", "-s", "two"]),
       ("dump_scaled", ["-p", "energy_mc", "-f", "ex.hdf5", "-s", "2", "-d", "/nowhere/at/all"]),
       ("dump_scaled", ["-p", "time_mc", "-f", "ex.hdf5", "-s", "2"]),
       ("dump_scaled", ["-p", "energy_mc", "-f", "none.hdf5", "-s", "2"]),
       ("dump_scaled", ["-p", "energy_mc", "-f", "ex.hdf5", "-s", "-2"]),
       ("dump_shifted", ["-d", "energy_mc", "-s", "0.5"]), ("dump_shifted", ["-d", "energy_mc", "-f", "ex.hdf5"]),
       ("dump_shifted", ["-f", "ex.hdf5", "-s", "0.5"]), ("dump_shifted", ["-d", "time_mc", "-f", "ex.hdf5", "-s", "0.5"]),
       ("dump_shrink", ["-p", "energy_mc", "-l", "0.5"]), ("dump_shrink", ["-i", "ex.hdf5", "-l", "0.5"]),
       ("dump_shrink", ["-i", "ex.hdf5", "-p", "energy_mc"]),
       ("dump_shrink", ["-i", "ex.hdf5", "-p", "energy_mc", "radial_mc", "-l", "0.5"]),
       ("dump_shrink", ["-i", "ex.hdf5", "-p", "energy_mc", "radial_mc", "-u", "0.5"]),
       ("dump_shrink", ["-i", "ex.hdf5", "-p", "energy_mc", "-l", "0.5", "-u", "1", "1"]),
       ("dump_shrink", ["-i", "ex.hdf5", "-p", "time_mc", "-l", "0.5"]),
       ("dump_shrink", ["-i", "ex.hdf5", "-p", "energy_mc", "-l", "5"]),
       ("rebin", ["-i", "ex.hdf5", "-b", "2"]), ("rebin", ["-i", "ex.hdf5", "-b", "2", "2"]),
       ("rebin", ["-i", "none.hdf5", "-b", "3", "2"]), ("combine_hdf5", ["-f", "ex.hdf5"]), ("combine_hdf5", []),
       ("combine_hdf5", ["-f", "ex.hdf5", "none.hdf5"]), ("combine_hdf5", ["-f", "ex.hdf5", "other.hdf5"]),
       ("dump_smeared", []), ("dump_smeared", ["-m", "no", "ex.hdf5"]), ("dump_smeared_energy", ["-m", "no", "ex.hdf5"]),
       ("dump_smeared_energy", ["-d", "/nowhere/at/all", "ex.hdf5"]), ("dump_smeared_energy", ["-r", "-0.1", "ex.hdf5"]),
       ("dump_smeared_energy", ["-r", "0", "ex.hdf5"]), ("dump_smeared", ["-r", "0", "ex.hdf5"])]


@case("C32", quick=[dict()])
def refused(ctx):
    store = ctx.load("echidna.output.store")
    s = source(ctx, "ex.hdf5", (4, 1))
    store.dump("other.hdf5", spectrum(ctx, [Geo("energy_mc", 0., 1., 4)], name="o_mc"))
    positive_splines(ctx)
    before = list(ctx.loader.fs.files)
    script, argv = ctx.choice("call", BAD)
    label = "a call that cannot be carried out is reported and writes nothing"
    try:
        ok = run(ctx, script, list(argv))
    except Exception as e:
        if type(e).__module__.startswith("engine"):
            raise
        ok = False
    ctx.check(not ok, label)
    ctx.check(list(ctx.loader.fs.files) == before, label)
    original(ctx, "ex.hdf5", s)


# -- spectra from ntuples and ROOT files ---------------------------------------------------------------
def everything(ctx):
    """ROOT with files to read and histograms to draw."""
    fs = fillspec.module(ctx)
    old = ctx.loader.stubs["ROOT"]
    r = Root("ROOT")
    r.TChain, r.RAT = old.TChain, old.RAT
    r.TH1D = r.TH1F = r.TH2D = Hist
    ctx.loader.stubs["ROOT"] = r
    ctx.loader.builtins["raw_input"] = lambda *a: ""
    pyplot(ctx)
    y = Yaml()
    y.install(ctx, ctx.load("echidna.core.config"))
    return fs


def event(ctx, p, dims):
    e = fillspec.row(ctx, p, dims, None)
    e.mc = 1
    return e


def fill(ctx, kind, files, dims, **kw):
    """What the library makes of the files, one after the other."""
    fs = ctx.load("echidna.core.fill_spectrum")
    f = fs.fill_from_ntuple if kind == "ntuple" else fs.fill_from_root
    s = f(files[0], "want", fillspec.config(ctx, dims), **kw)
    for n in files[1:]:
        f(n, spectrum=s, **kw)
    return s


OPTS = [[], ["--bipo"], ["-v", "3000."], ["-o", "6500."], ["--no-bipo", "-v", "2000."]]
SAVES = [None, "out", "out/"]
CALLS = [(OPTS[0], 1), (OPTS[1], 0), (OPTS[2], 2), (OPTS[3], 0), (OPTS[4], 2)]


def options(o):
    kw = dict(bipo="--bipo" in o)
    if "-v" in o:
        kw["fv_radius"] = float(o[o.index("-v") + 1])
    if "-o" in o:
        kw["outer_radius"] = float(o[o.index("-o") + 1])
    return kw


def filled(ctx, got, want, label):
    ctx.check(list(got.get_config().get_pars()) == list(want.get_config().get_pars()), label)
    if got._data.shape != want._data.shape:
        ctx.fail(label, "shape")
        return
    for i in indices(want._data.shape):
        ctx.eq(got._data[i], want._data[i], label)
    ctx.eq([got._raw_events, got._num_decays, got._bipo], [want._raw_events, want._num_decays, want._bipo], label)


@case("C32", quick=[dict(kind=k, listed=l) for k in ("ntuple", "root") for l in (False, True)])
def no_radial3(ctx, kind, listed):
    """A radius to divide by means nothing to a spectrum that has no such axis."""
    everything(ctx)
    dims = ctx.choice("dims", [["energy_mc"], ["radial_mc"], ["energy_mc", "radial_mc"]])
    fillspec.config(ctx, dims).dump_to_file(path="dir/", filename="saved")
    put(ctx, kind, "/data/in.root", [event(ctx, "e", dims)])
    if listed:
        import io
        ctx.loader.builtins["open"] = lambda f, *a, **k: io.StringIO("/data/in.root\n")
    before = list(ctx.loader.fs.files)
    label = "an outer radius is refused when there is no radial3 axis"
    argv = (["-r", "list.txt"] if listed else ["-f", "/data/in.root"]) + ["-c", "dir/saved.yml", "-o", "6500."]
    try:
        ok = run(ctx, "dump_spectra_" + kind, argv)
    except ValueError:
        ok = False
    ctx.check(not ok, label)
    ctx.check(list(ctx.loader.fs.files) == before, label)


def put(ctx, kind, name, events):
    if kind == "ntuple":
        fillspec.Chain.rows[("output", os.path.normpath(name))] = events
    else:
        fillspec.Reader.files[name] = [Ds(Mc([Particle(Vec(ctx, e.mcPosx, 0., 0.))], e.mcEdepQuenched, e.mcEdep), [])
                                       for e in events]


@case("C32", quick=[dict(kind=k, n=n, listed=l) for k in ("ntuple", "root") for n, l in ((1, False), (1, True), (2, True), (3, True))])
def spectra(ctx, kind, n, listed):
    everything(ctx)
    opts, save = ctx.choice("options", CALLS + [(["-v", "3000.", "-o", "6500."], 0)] * (n == 1))
    save = SAVES[save]
    dims = ["radial3_mc"] if "-o" in opts else ["energy_mc", "radial_mc"] if n == 1 else ["radial_mc"]
    fillspec.config(ctx, dims).dump_to_file(path="dir/", filename="saved")
    names = ["/data/in.v1.root", "/data/in.v2.root", "/other/last.root"][:n]
    for i, f in enumerate(names):
        put(ctx, kind, f, [event(ctx, "e%d_%d_" % (i, j), dims) for j in range(1)])
    if listed:
        import io
        text = "\n".join(names) + "\n"
        ctx.loader.builtins["open"] = lambda f, *a, **k: io.StringIO(text)
    argv = (["-r", "list.txt"] if listed else ["-f", names[0]]) + ["-c", "dir/saved.yml"] + opts + (["-s", save] if save else [])
    wants = [fill(ctx, kind, [f], dims, **options(opts)) for f in names]
    before = list(ctx.loader.fs.files)
    ctx.check(run(ctx, "dump_spectra_" + kind, argv), "the script reports no error")
    new = sorted(set(ctx.loader.fs.files) - set(before))
    label = "every file gives a spectrum of its events"
    ctx.check(len(new) == n, label)
    st = ctx.load("echidna.output.store")
    for f, want in zip(names, wants):
        d = "" if save is None else "out"
        at = [x for x in new if os.path.split(x)[0] == d and
              os.path.split(x)[1].startswith(os.path.splitext(os.path.split(f)[1])[0])]
        ctx.check(len(at) == 1, label)
        for x in at:
            filled(ctx, st.load(x), want, label)


@case("C32", quick=[dict(n=1), dict(n=2), dict(n=3)])
def combined_ntuples(ctx, n):
    everything(ctx)
    opts, save = ctx.choice("options", (CALLS + [(["-v", "3000.", "-o", "6500."], 0)] * (n == 1)) if n < 3 else CALLS[1:3])
    save = SAVES[save]
    dims = ["radial3_mc"] if "-o" in opts else ["energy_mc", "radial_mc"] if n == 1 else ["radial_mc"]
    fillspec.config(ctx, dims).dump_to_file(path="dir/", filename="saved")
    name, slash = ctx.choice("name", [(None, ""), ("mine", ""), (None, "/")])
    tmp = tempfile.mkdtemp(prefix="verif_c32_")
    try:
        d = os.path.join(tmp, "Te130")
        os.mkdir(d)
        names = [os.path.join(d, "f%d.root" % i) for i in range(n)]
        for i, f in enumerate(names):
            open(f, "w").close()
            put(ctx, "ntuple", f, [event(ctx, "e%d_%d_" % (i, j), dims) for j in range(1)])
        want = fill(ctx, "ntuple", names, dims, **options(opts))
        before = list(ctx.loader.fs.files)
        ok = run(ctx, "multi_ntuple_spectrum", ["-c", "dir/saved.yml", "-p", d + slash] + opts +
                 (["-s", save] if save else []) + (["-n", name] if name else []))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.check(ok, "the script reports no error")
    label = "the ntuples of a directory give one spectrum of all their events"
    out = written(ctx, before, label)
    if out is not None:
        ctx.check(out == os.path.join(*(["out"] if save else []) + [(name or "Te130") + ".hdf5"]), label)
        got = ctx.load("echidna.output.store").load(out)
        ctx.check(got._name == (name or "Te130"), label)
        filled(ctx, got, want, label)
