"""C25: conversions between half-life, activity, counts, effective mass and isotope mass."""
import math

from engine.registry import case


def mod(ctx):
    return ctx.load("echidna.calc.decay"), ctx.load("echidna.calc.constants")


def same(ctx, a, b, label):
    """Equal up to rounding, whatever the scale."""
    ctx.eq(a / b, 1., label)


def isotope(ctx, **kw):
    d, const = mod(ctx)
    p = dict(wi=ctx.real("atm_weight_iso", 1, 300), wn=ctx.real("atm_weight_nat", 1, 300),
             ab=ctx.real("abundance", 0.001, 1), ps=ctx.real("phase_space", 1e-18, 1e-12),
             me=ctx.real("matrix_element", 0.001, 10))
    return d.DBIsotope("X", p["wi"], p["wn"], p["ab"], p["ps"], p["me"], **kw), p


def given(ctx, *names):
    rng = dict(loading=(0.0001, 1), scint_density=(1e-8, 1e-5), outer_radius=(1, 10000), target_mass=(0.001, 1e5),
               scint_mass=(0.001, 1e7))
    return dict((n, ctx.real(n, *rng[n])) for n in names)


NA = 6.02214e23
ARGS = ["loading", "scint_density", "outer_radius", "target_mass", "scint_mass"]
SETS = [(), ("loading",), ("scint_density",), ("outer_radius",), ("scint_mass",), ("target_mass",),
        ("loading", "scint_mass"), ("loading", "scint_density", "outer_radius"), ("target_mass", "loading"),
        ("scint_mass", "outer_radius")]


@case("C25", quick=[dict(call=c, init=i) for c in SETS for i in ((), ("loading", "outer_radius", "scint_density"))])
def atoms(ctx, call, init):
    d, const = mod(ctx)
    own = dict(loading=const._loading, outer_radius=const._av_radius, scint_density=const._scint_density)
    kw = {}
    for n in init:
        kw[n] = ctx.real("own_" + n, *dict(loading=(0.0001, 1), scint_density=(1e-8, 1e-5),
                                           outer_radius=(1, 10000))[n])
    own.update(kw)
    iso, p = isotope(ctx, **kw)
    args = given(ctx, *call)
    use = dict(own, **args)
    if "target_mass" in use:
        m = use["target_mass"]
    else:
        sm = use["scint_mass"] if "scint_mass" in use else \
            use["scint_density"] * (4. / 3.) * math.pi * use["outer_radius"] * use["outer_radius"] * use["outer_radius"]
        m = p["ab"] * p["wi"] / p["wn"] * use["loading"] * sm
    n = iso.get_n_atoms(**args)
    ctx.check(ctx.abs(n * p["wi"] / (m * NA * 1000.) - 1.) < 1e-4,
              "the number of atoms is the isotope's mass over its atomic weight", margin=None)
    ctx.eq(n, iso.get_n_atoms(**args), "asking again gives the same number")
    if call:
        sm = own["scint_density"] * (4. / 3.) * math.pi * own["outer_radius"] * own["outer_radius"] * own["outer_radius"]
        m = p["ab"] * p["wi"] / p["wn"] * own["loading"] * sm
        ctx.check(ctx.abs(iso.get_n_atoms() * p["wi"] / (m * NA * 1000.) - 1.) < 1e-4,
                  "settings given for one call do not stay", margin=None)


@case("C25", quick=[dict()])
def nothing(ctx):
    """No isotope: zero is a setting like any other."""
    d, const = mod(ctx)
    iso, p = isotope(ctx)
    t = ctx.real("half_life", 1e15, 1e30)
    label = "settings of zero are the ones used"
    what = ctx.choice("what", ["target_mass", "scint_mass", "scint_density", "loading", "abundance", "n_atoms"])
    if what == "n_atoms":
        m, c = ctx.real("eff_mass", 1e-5, 100), ctx.real("counts", 0.001, 1e6)
        for v in (iso.half_life_to_activity(t, n_atoms=0.), iso.half_life_to_counts(t, n_atoms=0.),
                  iso.activity_to_half_life(c, n_atoms=0.), iso.counts_to_half_life(c, n_atoms=0.),
                  iso.eff_mass_to_counts(m, n_atoms=0.)):
            ctx.eq(v, 0., label)
        return
    if what != "abundance":
        ctx.eq(iso.get_n_atoms(**{what: 0.}), 0., label)
    if what in ("scint_density", "loading", "abundance"):
        kw = {} if what == "abundance" else {what: 0.}
        none = d.DBIsotope("X", p["wi"], p["wn"], 0. if what == "abundance" else p["ab"], p["ps"], p["me"], **kw)
        ctx.eq(none.get_n_atoms(), 0., label)
        ctx.eq(none.half_life_to_counts(t), 0., label)


@case("C25", quick=[dict()])
def constants(ctx):
    d, c = mod(ctx)
    for name, value in (("_electron_mass", 510998.9), ("_n_avagadro", NA), ("_atomic_mass_unit", 1.660539e-27)):
        ctx.check(abs(getattr(c, name) / value - 1.) < 1e-4, "physical constants have their accepted values")
    ctx.check(abs(c._av_radius - 5997.) < 1 and abs(c._fv_radius - 3500.) < 1 and abs(c._loading - 0.003) < 1e-9 and
              abs(c._scint_density - 862.8e-9) < 1e-12, "the defaults are those documented for SNO+")


HOW = ["own", "given"]


def amount(ctx, iso, how):
    """(n_atoms arguments, the number of atoms they mean)."""
    if how == "own":
        return {}, iso.get_n_atoms()
    n = ctx.real("n_atoms", 1e20, 1e30)
    return dict(n_atoms=n), n


@case("C25", quick=[dict(how=h) for h in HOW])
def activity(ctx, how):
    iso, p = isotope(ctx)
    kw, n = amount(ctx, iso, how)
    t = ctx.real("half_life", 1e15, 1e30)
    a = iso.half_life_to_activity(t, **kw)
    same(ctx, a * t / n, math.log(2), "the activity is ln 2 / half-life per atom")
    same(ctx, iso.activity_to_half_life(a, **kw), t, "half-life to activity and back")
    b = ctx.real("activity", 1e-6, 1e6)
    same(ctx, iso.half_life_to_activity(iso.activity_to_half_life(b, **kw), **kw), b, "activity to half-life and back")
    ctx.check(iso.half_life_to_activity(2 * t, **kw) < a, "a longer half-life means fewer decays")


@case("C25", quick=[dict(default=d) for d in (True, False)])
def counts(ctx, default):
    iso, p = isotope(ctx)
    lt = {} if default else dict(livetime=ctx.real("livetime", 0.01, 100))
    years = 5. if default else lt["livetime"]
    a, c = ctx.real("activity", 1e-6, 1e6), ctx.real("counts", 0.001, 1e6)
    ctx.eq(iso.activity_to_counts(a, **lt), a * years, "counts are activity times livetime")
    ctx.eq(iso.counts_to_activity(c, **lt), c / years, "activity is counts over livetime")
    same(ctx, iso.counts_to_activity(iso.activity_to_counts(a, **lt), **lt), a, "activity to counts and back")
    same(ctx, iso.activity_to_counts(iso.counts_to_activity(c, **lt), **lt), c, "counts to activity and back")


@case("C25", quick=[dict(how=h, default=d) for h in HOW for d in (True, False)])
def half_life_counts(ctx, how, default):
    iso, p = isotope(ctx)
    kw, n = amount(ctx, iso, how)
    if not default:
        kw["livetime"] = ctx.real("livetime", 0.01, 100)
    years = kw.get("livetime", 5.)
    t, c = ctx.real("half_life", 1e15, 1e30), ctx.real("counts", 0.001, 1e6)
    got = iso.half_life_to_counts(t, **kw)
    same(ctx, got * t / (n * years), math.log(2), "counts are ln 2 / half-life per atom and year")
    same(ctx, iso.counts_to_half_life(got, **kw), t, "half-life to counts and back")
    same(ctx, iso.half_life_to_counts(iso.counts_to_half_life(c, **kw), **kw), c, "counts to half-life and back")
    ctx.check(iso.counts_to_half_life(2 * c, **kw) < iso.counts_to_half_life(c, **kw),
              "more counts mean a shorter half-life")


@case("C25", quick=[dict()])
def eff_mass(ctx):
    iso, p = isotope(ctx)
    d, const = mod(ctx)
    m, t = ctx.real("eff_mass", 1e-5, 100), ctx.real("half_life", 1e15, 1e30)
    q = m / const._electron_mass
    same(ctx, iso.eff_mass_to_half_life(m) * p["ps"] * p["me"] * p["me"] * q * q, 1.,
         "1 / half-life is phase space * matrix element^2 * (mass ratio)^2")
    same(ctx, iso.half_life_to_eff_mass(iso.eff_mass_to_half_life(m)), m, "mass to half-life and back")
    same(ctx, iso.eff_mass_to_half_life(iso.half_life_to_eff_mass(t)), t, "half-life to mass and back")
    ctx.check(iso.eff_mass_to_half_life(m * 2) < iso.eff_mass_to_half_life(m), "a larger mass means a shorter half-life")


@case("C25", quick=[dict(how=h, default=d) for h in HOW for d in (True, False)])
def eff_mass_counts(ctx, how, default):
    iso, p = isotope(ctx)
    kw, n = amount(ctx, iso, how)
    if not default:
        kw["livetime"] = ctx.real("livetime", 0.01, 100)
    m, c = ctx.real("eff_mass", 1e-5, 100), ctx.real("counts", 0.001, 1e6)
    got = iso.eff_mass_to_counts(m, **kw)
    same(ctx, got, iso.half_life_to_counts(iso.eff_mass_to_half_life(m), **kw),
         "counts for a mass are those for its half-life")
    same(ctx, iso.counts_to_eff_mass(got, **kw), m, "mass to counts and back")
    same(ctx, iso.eff_mass_to_counts(iso.counts_to_eff_mass(c, **kw), **kw), c, "counts to mass and back")


@case("C25", quick=[dict()])
def refused(ctx):
    d, const = mod(ctx)
    x = ctx.real("bad", -100, 100)
    what = ctx.choice("what", ["abundance", "loading", "outer_radius", "n_loading", "n_radius", "livetime", "eff_mass"])
    if what in ("abundance", "loading", "n_loading"):
        bad = x < 0 or x > 1
    else:
        bad = bool(x <= 0)
    make = lambda **k: d.DBIsotope("X", 130., 128., k.pop("abundance", 0.3), 1e-14, 4., **k)
    if what in ("abundance", "loading", "outer_radius"):
        if bad:
            ctx.raises(ValueError, make, label="unphysical inputs are refused", **{what: x})
            return
        iso = make(**{what: x})
        ctx.eq(getattr(iso, "_" + what), x, "physical inputs are used")
        if what == "loading":
            ctx.eq(iso.get_n_atoms(), make().get_n_atoms(loading=x), "physical inputs are used")
        elif what == "outer_radius":
            ctx.eq(iso.get_n_atoms(), make().get_n_atoms(outer_radius=x), "physical inputs are used")
        return
    iso = make()
    if what in ("n_loading", "n_radius"):
        kw = {"loading" if what == "n_loading" else "outer_radius": x}
        if bad:
            ctx.raises(ValueError, iso.get_n_atoms, label="unphysical inputs are refused", **kw)
        else:
            n = iso.get_n_atoms(**kw)
            ctx.check(n >= 0, "the number of atoms is not negative")
        return
    if what == "eff_mass":
        calls = [(iso.eff_mass_to_half_life, x), (iso.eff_mass_to_counts, x)]
        kw = {}
    else:
        calls = [(f, 10.) for f in (iso.activity_to_counts, iso.counts_to_activity, iso.counts_to_eff_mass,
                                    iso.eff_mass_to_counts, iso.half_life_to_counts, iso.counts_to_half_life)]
        kw = dict(livetime=x)
    for f, v in calls:
        if bad:
            ctx.raises(ValueError, f, v, label="unphysical inputs are refused", **kw)
        else:
            ctx.check(f(v, **kw) > 0, "physical inputs give a positive result")
