"""C26: values and validity extracted from ntuple entries and RAT data structures."""
from engine.registry import case

MC = ["energy_mc", "energy_truth", "radial_mc", "radial3_mc", "zradial3_mc"]
RECO = ["energy_reco", "radial_reco", "radial3_reco", "zradial3_reco"]
CLASSES = {"energy_mc": "EnergyExtractMC", "energy_truth": "EnergyExtractTruth", "radial_mc": "RadialExtractMC",
           "radial3_mc": "Radial3ExtractMC", "zradial3_mc": "ZRadial3ExtractMC", "energy_reco": "EnergyExtractReco",
           "radial_reco": "RadialExtractReco", "radial3_reco": "Radial3ExtractReco",
           "zradial3_reco": "ZRadial3ExtractReco"}
CUBED = [n for n in CLASSES if "3" in n]


# -- stand-ins for the classes of ROOT and RAT that are read ---------------------------------------
class Vec(object):
    """TVector3"""

    def __init__(self, ctx, x, y, z):
        self._ctx, self._v = ctx, (x, y, z)

    def __getitem__(self, i):
        return self._v[i]

    __call__ = __getitem__

    def X(self):
        return self._v[0]

    def Y(self):
        return self._v[1]

    def Z(self):
        return self._v[2]

    x, y, z, Px, Py, Pz = X, Y, Z, X, Y, Z

    def Mag2(self):
        x, y, z = self._v
        return x * x + y * y + z * z

    def Mag(self):
        return self._ctx.sqrt(self.Mag2())


class NoValue(Exception):
    """RAT throws when what is asked for was not reconstructed."""


class Vertex(object):
    def __init__(self, energy, pos, contains_e=True, valid_e=True, contains_p=True, valid_p=True):
        self.f = dict(energy=energy, pos=pos, ce=contains_e, ve=valid_e, cp=contains_p, vp=valid_p)

    def ContainsEnergy(self):
        return self.f["ce"]

    def ValidEnergy(self):
        if not self.f["ce"]:
            raise NoValue("energy")
        return self.f["ve"]

    def ContainsPosition(self):
        return self.f["cp"]

    def ValidPosition(self):
        if not self.f["cp"]:
            raise NoValue("position")
        return self.f["vp"]

    def GetEnergy(self):
        if not self.f["ce"]:
            raise NoValue("energy")
        return self.f["energy"]

    def GetPosition(self):
        if not self.f["cp"]:
            raise NoValue("position")
        return self.f["pos"]


class Ev(object):
    def __init__(self, vertex):
        self.vertex = vertex

    def DefaultFitVertexExists(self):
        return self.vertex is not None

    def GetDefaultFitVertex(self):
        if self.vertex is None:
            raise NoValue("vertex")
        return self.vertex


class Particle(object):
    def __init__(self, pos):
        self.pos = pos

    def GetPosition(self):
        return self.pos


class Mc(object):
    def __init__(self, particles, quenched, deposit):
        self.particles, self.quenched, self.deposit = particles, quenched, deposit

    def GetMCParticleCount(self):
        return len(self.particles)

    def GetMCParticle(self, i):
        if not 0 <= i < len(self.particles):
            raise NoValue("particle")
        return self.particles[i]

    def GetScintQuenchedEnergyDeposit(self):
        return self.quenched

    def GetScintEnergyDeposit(self):
        return self.deposit


class Ds(object):
    def __init__(self, mc, evs):
        self.mc, self.evs = mc, evs

    def GetMC(self):
        return self.mc

    def GetEVCount(self):
        return len(self.evs)

    def GetEV(self, i):
        if not 0 <= i < len(self.evs):
            raise NoValue("ev")
        return self.evs[i]


class Entry(object):
    """A row of an ntuple."""


FIELDS = ["energy", "posx", "posy", "posz", "mcPosx", "mcPosy", "mcPosz", "mcEdep", "mcEdepQuenched"]


def entry(ctx, prefix=""):
    e = Entry()
    for f in FIELDS:
        hi = 20 if "dep" in f or f == "energy" else 8000
        setattr(e, f, ctx.real(prefix + f, -1 if f == "energy" else 0 if "dep" in f else -hi, hi))
    e.mc = ctx.int(prefix + "mc", 0, 2)
    e.scintFit = ctx.int(prefix + "scintFit", -1, 2)
    return e


def vec(ctx, prefix, lim=8000):
    return Vec(ctx, *[ctx.real(prefix + c, -lim, lim) for c in "xyz"])


def square(x, y, z):
    return x * x + y * y + z * z


def radius_cubed(name):
    return name in CUBED


# -- the rules -------------------------------------------------------------------------------------
def options(name):
    """Ways in which an extractor may be asked for."""
    o = [dict(), dict(fv=1)]
    if name in MC:
        o += [dict(fv=1, other=1)]
        if name.startswith("energy"):
            o += [dict(external=1), dict(fv=1, external=1)]
    else:
        o += [dict(fv=1, other=1), dict(external=1, fv=1)]
    return o


CASES = [dict(name=n, opt=o) for n in MC + RECO for o in options(n)]


def build(ctx, name, opt):
    ds = ctx.load("echidna.core.dsextract")
    const = ctx.load("echidna.calc.constants")
    kw = {}
    if opt.get("fv"):
        kw["fv_radius"] = ctx.real("fv_radius", 1, 7000)
    if opt.get("external"):
        kw["external"] = True
    R = const._av_radius
    if radius_cubed(name) and ctx.choice("own_radius", [False, True]):
        kw["outer_radius"] = R = ctx.real("outer_radius", 0.1, 8000)
    if opt.get("other"):
        kw["reco_pos" if name in MC else "mc_pos"] = True
        ex = getattr(ds, CLASSES[name])(**kw)
    else:
        how = ctx.choice("how", ["factory", "class"])
        ex = ds.function_factory(name, **kw) if how == "factory" else getattr(ds, CLASSES[name])(**kw)
    ctx.eq(ex._name, name, "the extractor carries the dimension's name")
    return ex, kw, R


def check_value(ctx, name, got, energies, pos, R, label):
    """got is the value the dimension stands for."""
    if name in energies:
        return ctx.eq(got, energies[name], label)
    x, y, z = pos
    r2 = square(x, y, z)
    if not radius_cubed(name):
        ctx.check(got >= 0, label)
        ctx.eq(got * got, r2, label)
        return
    r = ctx.sqrt(r2)
    want = r * r * r
    if name.startswith("z") and z < 0:
        want = -want
    ctx.eq(got * R * R * R, want, label)


@case("C26", quick=CASES)
def ntuple(ctx, name, opt):
    ex, kw, R = build(ctx, name, opt)
    e = entry(ctx)
    mcpos, recpos = (e.mcPosx, e.mcPosy, e.mcPosz), (e.posx, e.posy, e.posz)
    external, other, fv = opt.get("external"), opt.get("other"), kw.get("fv_radius")
    valid = ex.get_valid_ntuple(e)
    fit = e.scintFit == 1
    if name in MC:
        cond = [e.mc == 1]
        by_reco = bool(external or other)
        if external or (by_reco and fv is not None):
            cond.append(fit)
    else:
        cond = [fit]
        if name == "energy_reco":
            cond.append(e.energy > 0)
        by_reco = not other
    if fv is not None:
        r2 = square(*(recpos if by_reco else mcpos))
        cond.append(r2 < fv * fv)
    want = ctx.And(*cond)
    ctx.check(valid == want, "an ntuple entry is used exactly when it has the quantity and passes the cuts")
    if want:
        got = ex.get_value_ntuple(e)
        check_value(ctx, name, got, {"energy_mc": e.mcEdepQuenched, "energy_truth": e.mcEdep, "energy_reco": e.energy},
                    mcpos if name in MC else recpos, R, "the value is the quantity the dimension names (ntuple)")


def vertex(ctx, name, prefix="v_"):
    if not ctx.choice(prefix + "exists", [True, False]):
        return None
    flags = {}
    if name in RECO:
        if name == "energy_reco":
            flags = dict(contains_e=ctx.choice(prefix + "ce", [True, False]),
                         valid_e=ctx.choice(prefix + "ve", [True, False]))
        else:
            flags = dict(contains_p=ctx.choice(prefix + "cp", [True, False]),
                         valid_p=ctx.choice(prefix + "vp", [True, False]),
                         contains_e=ctx.choice(prefix + "ce", [True, False]), valid_e=False)
    return Vertex(ctx.real(prefix + "energy", 0.01, 20), vec(ctx, prefix + "pos"), **flags)


@case("C26", quick=CASES)
def root(ctx, name, opt):
    ex, kw, R = build(ctx, name, opt)
    external, other, fv = opt.get("external"), opt.get("other"), kw.get("fv_radius")
    n_ev = ctx.choice("n_ev", [0, 1, 2] if name in MC else [1, 2])
    n_particles = ctx.choice("n_particles", [0, 1, 2])
    if name in RECO and other:
        ctx.assume(n_particles > 0)
    mc = Mc([Particle(vec(ctx, "mc%d_" % i)) for i in range(n_particles)], ctx.real("quenched", 0, 20),
            ctx.real("deposit", 0, 20))
    evs = [Ev(vertex(ctx, name, "v%d_" % i)) if i == 0 else Ev(Vertex(3., Vec(ctx, 0., 0., 0.)))
           for i in range(n_ev)]
    ds = Ds(mc, evs)
    label = "an event is used exactly when it has the quantity and passes the cuts (ROOT)"
    cond = []
    if name in MC:
        by_reco = bool(external or other)
        if external:
            cond.append(n_ev > 0)
        cond.append(n_particles > 0)
        if fv is not None and by_reco and all(cond):
            if n_ev > 1:
                ctx.raises(ValueError, ex.get_valid_root, mc, ds,
                           label="a reconstructed position cut needs exactly one ev")
                return
            cond.append(n_ev == 1 and evs[0].vertex is not None)
        source, ev = mc, (evs or [None])[0]
    else:
        ev = evs[0]
        by_reco = not other
        v = ev.vertex
        keys = ("ce", "ve") if name == "energy_reco" else ("cp", "vp")
        cond.append(v is not None and all(v.f[k] for k in keys))
        source = ev
    valid = ex.get_valid_root(source, ds)
    want = all(cond)
    if want and fv is not None:
        pos = ev.vertex.f["pos"] if by_reco else mc.particles[0].pos
        want = pos.Mag2() < fv * fv
    ctx.check(valid == want, label)
    if want:
        got = ex.get_value_root(source)
        v = ev.vertex if name in RECO else None
        check_value(ctx, name, got, {"energy_mc": mc.quenched, "energy_truth": mc.deposit,
                                     "energy_reco": v and v.f["energy"]},
                    v.f["pos"] if v else mc.particles[0].pos, R, "the value is the quantity the dimension names (ROOT)")


@case("C26", quick=[dict()])
def refused(ctx):
    ds = ctx.load("echidna.core.dsextract")
    what = ctx.choice("what", ["unknown", "external", "external_mc_pos"])
    if what == "unknown":
        n = ctx.choice("name", ["energy", "energy_data", "zradial_mc", "", "radial3", "zradial3_truth"])
        ctx.raises(IndexError, ds.function_factory, n, label="an unknown dimension is an IndexError")
        return
    if what == "external":
        n = ctx.choice("name", [m for m in MC if "radial" in m])
        ctx.raises(ValueError, ds.function_factory, n, external=True,
                   label="external backgrounds have no mc position")
        return
    n = ctx.choice("name", RECO)
    ctx.raises(ValueError, getattr(ds, CLASSES[n]), external=True, mc_pos=True,
               label="external backgrounds have no mc position")


@case("C26", quick=[dict()])
def same_dimension(ctx):
    """An event reads the same from the ntuple and from the data structure."""
    ds = ctx.load("echidna.core.dsextract")
    name = ctx.choice("name", MC + RECO)
    ex = ds.function_factory(name)
    e = entry(ctx)
    ctx.assume(e.scintFit == 1)
    ctx.assume(e.mc == 1)
    ctx.assume(e.energy > 0)
    ev = Ev(Vertex(e.energy, Vec(ctx, e.posx, e.posy, e.posz)))
    mc = Mc([Particle(Vec(ctx, e.mcPosx, e.mcPosy, e.mcPosz))], e.mcEdepQuenched, e.mcEdep)
    d = Ds(mc, [ev])
    src = mc if name in MC else ev
    ctx.check(ctx.And(ex.get_valid_root(src, d), ex.get_valid_ntuple(e)), "a complete event is valid in both formats")
    ctx.eq(ex.get_value_root(src), ex.get_value_ntuple(e), "both formats give the same value")
