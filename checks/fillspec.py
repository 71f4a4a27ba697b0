"""C27: spectra filled from ntuples and from RAT ROOT files."""
import os
import types
from collections import OrderedDict

import numpy as np

from engine.registry import case
from checks.common import indices, total
from checks.extract import Ds, Entry, Ev, FIELDS, Mc, Particle, Vec, Vertex
from checks.params import Yaml


class Chain(object):
    """TChain: iterating it makes each entry current in turn and yields the chain itself."""
    rows = {}
    added = None

    def __init__(self, name="", title=""):
        self.__dict__.update(_name=name, _files=[], _i=None)

    def Add(self, f, *a):
        self._files.append(os.path.normpath(f))
        return 1

    AddFile = Add

    def _rows(self):
        return [r for f in self._files for r in Chain.rows[(self._name, f)]]

    def GetEntries(self):
        return len(self._rows())

    GetEntriesFast = GetEntries

    def GetEntry(self, i):
        self.__dict__["_i"] = i
        return 1

    def LoadTree(self, i):
        return i if i < self.GetEntries() else -2

    def __iter__(self):
        for i in range(self.GetEntries()):
            self.__dict__["_i"] = i
            yield self
        self.__dict__["_i"] = None

    def __getattr__(self, f):
        if f.startswith("_"):
            raise AttributeError(f)
        if self._i is None:
            raise AttributeError("no current entry")
        return getattr(self._rows()[self._i], f)


class Reader(object):
    """RAT::DU::DSReader"""
    files = {}

    def __init__(self, name):
        self._ds = Reader.files[name]

    def GetEntryCount(self):
        return len(self._ds)

    def GetEntry(self, i):
        if not 0 <= i < len(self._ds):
            raise IndexError("entry")
        return self._ds[i]


def module(ctx):
    Chain.rows, Reader.files = {}, {}
    root = types.ModuleType("ROOT")
    root.TChain = Chain
    root.TObject = object()
    rat = types.ModuleType("RAT")
    rat.DU = types.SimpleNamespace(DSReader=Reader)
    root.RAT = rat
    ctx.loader.stubs["ROOT"] = root
    return ctx.load("echidna.core.fill_spectrum")


GEO = {"energy": (0., 4., 2), "radial": (0., 6000., 2), "radial3": (0., 1., 2)}


def config(ctx, dims):
    c, p = ctx.load("echidna.core.config"), ctx.load("echidna.core.parameter")
    pars = OrderedDict()
    for d in dims:
        low, high, bins = GEO[d.split("_")[0]]
        pars[d] = p.SpectraParameter(d, low, high, bins)
    return c.SpectraConfig("cfg", pars)


def target(ctx, dims, append, raw=7):
    """(spectrum or None, its contents, raw events, decays)"""
    shape = tuple(GEO[d.split("_")[0]][2] for d in dims)
    if not append:
        return None, np.zeros(shape), 0, 0
    s = ctx.load("echidna.core.spectra").Spectra("mine", 50., config(ctx, dims))
    s._data = ctx.reals("d", shape, 0, 10)
    s._raw_events = raw
    return s, ctx.snapshot(s._data), raw, 50.


def values(d, e):
    """The value of dimension d for an event; y and z are zero in this harness."""
    if d == "energy_mc":
        return e.mcEdepQuenched
    if d == "energy_truth":
        return e.mcEdep
    if d == "energy_reco":
        return e.energy
    r = e.mcPosx if d.endswith("mc") else e.posx
    return r if not d.startswith("radial3") else (r / 6000.) * (r / 6000.) * (r / 6000.)


def row(ctx, prefix, dims, fv):
    e = Entry()
    for f in FIELDS:
        setattr(e, f, 0.)
    need = set()
    for d in dims:
        mc = d.split("_")[1] != "reco"
        if d.startswith("energy"):
            need.add({"mc": "mcEdepQuenched", "truth": "mcEdep", "reco": "energy"}[d.split("_")[1]])
        if d.startswith("radial") or fv is not None:
            need.add("mcPosx" if mc else "posx")
    for f in sorted(need):
        setattr(e, f, ctx.real(prefix + f, 0, 7000) if "os" in f else ctx.real(prefix + f, -1 if f == "energy" else 0, 6))
    e.mc = e.scintFit = 0
    if any(d.split("_")[1] != "reco" for d in dims):
        e.mc = ctx.choice(prefix + "mc", [1, 0])
    if any(d.split("_")[1] == "reco" for d in dims):
        e.scintFit = ctx.choice(prefix + "scintFit", [1, 0])
    e.evIndex = 0
    return e


def valid(ctx, dims, e, fv, ntuple=True):
    conds = []
    for d in dims:
        mc = d.split("_")[1] != "reco"
        conds.append((e.mc if mc else e.scintFit) == 1)
        if ntuple and d == "energy_reco":
            conds.append(e.energy > 0)
        if fv is not None:
            x = e.mcPosx if mc else e.posx
            ctx.assume(x != fv)
            conds.append(x < fv)
    return ctx.And(*conds)


def expected(ctx, dims, before, kept):
    """Contents and number of events after the kept (condition, event) are counted."""
    out = np.empty(before.shape, dtype=object)
    n = 0
    ins = []
    for cond, e in kept:
        inside = cond
        for d in dims:
            low, high, bins = GEO[d.split("_")[0]]
            v = values(d, e)
            inside = ctx.And(inside, v >= low, v < high)
        ins.append(inside)
        n = n + ctx.ite(inside, 1, 0)
    for i in indices(before.shape):
        t = before[i]
        for inside, (cond, e) in zip(ins, kept):
            here = inside
            for d, k in zip(dims, i):
                low, high, bins = GEO[d.split("_")[0]]
                w = (high - low) / bins
                v = values(d, e)
                here = ctx.And(here, v >= low + k * w, v < low + (k + 1) * w)
            t = t + ctx.ite(here, 1., 0.)
        out[i] = t
    return out, n


def compare(ctx, s, dims, before, raw, decays, n_entries, kept, label):
    out, n = expected(ctx, dims, before, kept)
    if s._data.shape != out.shape:
        ctx.fail(label, "shape")
        return
    for i in indices(out.shape):
        ctx.eq(s._data[i], out[i], label)
    ctx.eq(s._raw_events, raw + n, "raw_events counts the events in the histogram")
    ctx.eq(s._num_decays, decays + n_entries, "num_decays counts every simulated entry")


def call(ctx, f, name, s, dims, **kw):
    if s is not None:
        how = ctx.choice("name_given", ["no", "yes"])
        a = ("other",) if how == "yes" else ()
        r = f(name, *a, spectrum=s, **kw)
        ctx.check(r is s and s._name == "mine", "a given spectrum is appended to")
        return r
    r = f(name, "new", config(ctx, dims), **kw)
    ctx.check(r._name == "new" and list(r.get_config().get_pars()) == list(dims),
              "a new spectrum has the name and configuration given")
    return r


NT = [("energy_mc",), ("energy_reco",), ("energy_truth", "radial_mc"), ("radial_reco", "energy_mc")]


@case("C27", quick=[dict(dims=d, n=2, append=a, fv=v) for d in NT for a, v in ((False, False), (True, True))] +
      [dict(dims=("energy_mc",), n=3, append=False, fv=False), dict(dims=("energy_mc",), n=0, append=True, fv=False)],
      thorough=[dict(dims=d, n=3, append=True, fv=v) for d in NT[1:] + [("radial3_mc", "energy_mc", "energy_reco")]
                for v in (False, True)])
def ntuple(ctx, dims, n, append, fv):
    fs = module(ctx)
    R = ctx.real("fv", 100, 6500) if fv else None
    rows = [row(ctx, "e%d_" % k, dims, R) for k in range(n)]
    Chain.rows = {("output", "f.ntuple.root"): rows}
    s, before, raw, decays = target(ctx, dims, append, 7 if fv else 4000)
    kw = dict(fv_radius=R) if fv else {}
    if any(d.startswith("radial3") for d in dims):
        kw["outer_radius"] = 6000.
    s = call(ctx, fs.fill_from_ntuple, "f.ntuple.root", s, dims, **kw)
    compare(ctx, s, dims, before, raw, decays, n, [(valid(ctx, dims, e, R), e) for e in rows],
            "each valid ntuple entry is counted once in its bin")
    ctx.check(not s._bipo, "the bipo flag is set only when the cut is applied")


@case("C27", quick=[dict(dims=("energy_mc",), n=3, append=True), dict(dims=("energy_reco", "radial_mc"), n=2, append=False),
                    dict(dims=("energy_reco",), n=1, append=True)],
      thorough=[dict(dims=("energy_mc",), n=4, append=False), dict(dims=("energy_reco", "radial_mc"), n=3, append=True)])
def bipo_ntuple(ctx, dims, n, append):
    fs = module(ctx)
    rows = [row(ctx, "e%d_" % k, dims, None) for k in range(n)]
    for k, e in enumerate(rows):
        e.evIndex = ctx.choice("evIndex%d" % k, [0, 1, -1] if k else [0, -1])
    Chain.rows = {("output", "f"): rows}
    s, before, raw, decays = target(ctx, dims, append)
    s = call(ctx, fs.fill_from_ntuple, "f", s, dims, bipo=True)
    kept = []
    for k, e in enumerate(rows):
        if e.evIndex == 0 and not (k + 1 < n and rows[k + 1].evIndex >= 1):
            kept.append((valid(ctx, dims, e, None), e))
    compare(ctx, s, dims, before, raw, decays, n, kept, "the bipo cut keeps first triggers without a retrigger")
    ctx.check(s._bipo == 1, "the bipo flag records the cut")


ROOTS = [("energy_mc",), ("energy_reco",), ("energy_truth", "radial_mc"), ("radial_reco", "energy_mc"),
         ("energy_reco", "radial_reco")]


@case("C27", quick=[dict(dims=d, n=2 if len(d) == 1 else 1, append=a, bipo=b, fv=v) for d in ROOTS
                    for a, b, v in ((False, False, False), (True, True, False), (True, False, True))] +
      [dict(dims=("energy_mc",), n=0, append=False, bipo=False, fv=False)],
      thorough=[dict(dims=d, n=2, append=True, bipo=b, fv=False) for d in ROOTS for b in (False, True)], tbudget=400)
def root(ctx, dims, n, append, bipo, fv):
    fs = module(ctx)
    R = ctx.real("fv", 100, 6500) if fv else None
    mcdims = [d for d in dims if not d.endswith("reco")]
    data, kept = [], []
    for k in range(n):
        p = "e%d_" % k
        base = row(ctx, p, mcdims, R)
        base.mc = 1 if not mcdims else ctx.choice(p + "particles", [1, 0])
        mc = Mc([Particle(Vec(ctx, base.mcPosx, 0., 0.))] * base.mc, base.mcEdepQuenched, base.mcEdep)
        evs, seen = [], []
        for j in range(ctx.choice(p + "evs", [0, 1, 2] if k == 0 else [1, 0])):
            e = Entry()
            e.__dict__.update(base.__dict__)
            q = "%sv%d_" % (p, j)
            e.scintFit = 1
            if len(mcdims) < len(dims):
                r = row(ctx, q, [d for d in dims if d.endswith("reco")], R)
                e.posx, e.energy, e.scintFit = r.posx, r.energy, r.scintFit
            evs.append(Ev(Vertex(e.energy, Vec(ctx, e.posx, 0., 0.)) if e.scintFit else None))
            seen.append(e)
        data.append(Ds(mc, evs))
        if bipo and len(evs) != 1:
            continue
        for e in (seen if len(mcdims) < len(dims) else [base]):
            kept.append((valid(ctx, dims, e, R, ntuple=False), e))
    Reader.files = {"f.root": data}
    s, before, raw, decays = target(ctx, dims, append)
    kw = dict(fv_radius=R) if fv else {}
    s = call(ctx, fs.fill_from_root, "f.root", s, dims, bipo=bipo, **kw)
    compare(ctx, s, dims, before, raw, decays, n, kept,
            "each valid event is counted once in its bin (ROOT)" if not bipo else
            "the bipo cut keeps entries with exactly one ev")
    ctx.check(bool(s._bipo) == bipo, "the bipo flag records the cut")


@case("C27", quick=[dict()])
def refused(ctx):
    fs = module(ctx)
    f = ctx.choice("f", ["fill_from_root", "fill_from_ntuple"])
    Chain.rows = {("output", "f"): []}
    Reader.files = {"f": []}
    f, kind = getattr(fs, f), f
    cfg = config(ctx, ["energy_mc"])
    how = ctx.choice("how", ["no_name", "no_config", "nothing", "unknown"])
    if how == "unknown":
        c, p = ctx.load("echidna.core.config"), ctx.load("echidna.core.parameter")
        n = ctx.choice("dim", ["energy_data", "time_mc"])
        bad = c.SpectraConfig("cfg", OrderedDict([(n, p.SpectraParameter(n, 0., 1., 2))]))
        ctx.raises(IndexError, f, "f", "new", bad, label="an unknown dimension is an IndexError")
        return
    args = dict(no_name=dict(config=cfg), no_config=dict(spectrum_name="new"), nothing={})[how]
    ctx.raises(ValueError, f, "f", label="a new spectrum needs a name and a configuration", **args)


@case("C27", quick=[dict()])
def config_file(ctx):
    """The configuration may be given as the path of a file."""
    fs = module(ctx)
    c = ctx.load("echidna.core.config")
    y = Yaml()
    y.install(ctx, c)
    kind = ctx.choice("f", ["fill_from_root", "fill_from_ntuple"])
    config(ctx, ["energy_mc"]).dump_to_file(path="dir/", filename="saved")
    name = ctx.choice("file_name", ["dir/saved.yml", "dir/conf.v2"])
    y.files[name] = y.files["dir/saved.yml"]
    e = row(ctx, "e_", ["energy_mc"], None)
    ctx.assume(e.mcEdepQuenched < 4)
    e.mc = 1
    Chain.rows = {("output", "f"): [e]}
    Reader.files = {"f": [Ds(Mc([Particle(Vec(ctx, 0., 0., 0.))], e.mcEdepQuenched, 0.), [])]}
    s = getattr(fs, kind)("f", "new", name)
    ctx.check(list(s.get_config().get_pars()) == ["energy_mc"], "the configuration may be a file")
    out, n = expected(ctx, ["energy_mc"], np.zeros((2,)), [(True, e)])
    for i in indices((2,)):
        ctx.eq(s._data[i], out[i], "each valid event is counted once in its bin")


@case("C27", quick=[dict(dims=("energy_mc", "radial_reco")), dict(dims=("energy_reco",))])
def many_evs(ctx, dims):
    """An entry with three triggered events fills three times."""
    fs = module(ctx)
    s, before, raw, decays = target(ctx, dims, True)
    if ctx.choice("many_raw", [True, False]):
        s._raw_events = raw = 4000
    base = row(ctx, "e_", [d for d in dims if d.endswith("mc")], None)
    base.mc = 1
    evs, kept = [], []
    for j in range(3):
        e = Entry()
        e.__dict__.update(base.__dict__)
        e.scintFit = 1
        e.posx, e.energy = 1000. + 2000. * j, 0.5 + 1.5 * j
        evs.append(Ev(Vertex(e.energy, Vec(ctx, e.posx, 0., 0.))))
        kept.append((True, e))
    Reader.files = {"f.root": [Ds(Mc([Particle(Vec(ctx, base.mcPosx, 0., 0.))], base.mcEdepQuenched, 0.), evs)]}
    bipo = ctx.choice("bipo", [False, True])
    s = call(ctx, fs.fill_from_root, "f.root", s, dims, bipo=bipo)
    compare(ctx, s, dims, before, raw, decays, 1, [] if bipo else kept, "each valid event is counted once in its bin (ROOT)")


@case("C27", quick=[dict(dims=("radial3_mc",)), dict(dims=("energy_mc", "radial3_reco"))])
def options(ctx, dims):
    """The extractors are given the options."""
    fs = module(ctx)
    kind = ctx.choice("f", ["fill_from_root", "fill_from_ntuple"])
    R = ctx.real("outer", 0.5, 9000)
    e = row(ctx, "e_", dims, None)
    e.mc = e.scintFit = 1
    if "energy_mc" in dims:
        e.mcEdepQuenched = 1.
    Chain.rows = {("output", "f"): [e]}
    Reader.files = {"f": [Ds(Mc([Particle(Vec(ctx, e.mcPosx, 0., 0.))], e.mcEdepQuenched, 0.),
                             [Ev(Vertex(1., Vec(ctx, e.posx, 0., 0.)))])]}
    s, before, raw, decays = target(ctx, dims, True)
    call(ctx, getattr(fs, kind), "f", s, dims, outer_radius=R)
    r = e.mcPosx if dims[-1].endswith("mc") else e.posx
    for i in indices(before.shape):
        k = i[-1]
        here = ctx.And(2 * r * r * r >= k * R * R * R, 2 * r * r * r < (k + 1) * R * R * R)
        if len(dims) == 2 and i[0] != 0:
            here = False
        ctx.eq(s._data[i], before[i] + ctx.ite(here, 1., 0.), "the options reach the extractors")
