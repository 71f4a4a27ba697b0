"""C17, C18: test statistics."""
from engine.registry import case

EPS = 1e-34


def refs(ctx, name, o, e):
    """Documented per-bin formula; o, e >= 0 with 0 or at least 1e-6."""
    ec = EPS if (e == 0) else e
    oc = EPS if (o == 0) else o
    if name == "ExtendedLL":
        return ec - o * ctx.log(ec)
    if name in ("BakerCousinsChi", "BakerCousinsChiUp", "BakerCousinsLL"):
        if name == "BakerCousinsChiUp" and o > e:
            return 0.
        v = ec if o == 0 else ec - o + o * ctx.log(o / ec)
        return v if name == "BakerCousinsLL" else 2. * v
    if name == "Neyman":
        return oc if e == 0 else (e - oc) ** 2 / oc
    if name == "Pearson":
        return ec if o == 0 else (o - ec) ** 2 / ec
    raise KeyError(name)


ALL = ["BakerCousinsChi", "BakerCousinsChiUp", "BakerCousinsLL", "Neyman", "Pearson", "ExtendedLL"]


def not_upward(ctx, o, e):
    for i in range(len(o)):
        ctx.assume(o[i] <= e[i])


def counts(ctx, name, n, zero=True):
    a = ctx.reals(name, n, lo=0)
    for i in range(n):
        if zero:
            ctx.assume(ctx.Or(a[i] == 0, a[i] >= 1e-6))
        else:
            ctx.assume(a[i] >= 1e-6)
    return a


@case("C17", quick=[dict(stat=s, n=n) for s in ALL for n in (1, 2, 3)],
      thorough=[dict(stat=s, n=4) for s in ALL], budget=100)
def formula(ctx, stat, n):
    ts = ctx.load("echidna.fit.test_statistic")
    cls = getattr(ts, stat)
    o, e = counts(ctx, "obs", n), counts(ctx, "exp", n)
    per_bin = ctx.choice("per_bin", [False, True])
    if per_bin and stat == "BakerCousinsChiUp":
        not_upward(ctx, o, e)               # upward bins: see up_per_bin_upward
    want = [refs(ctx, stat, o[i], e[i]) for i in range(n)]
    t = cls(per_bin=True) if per_bin else (cls() if n == 1 else cls(per_bin=False))
    got = t.compute_statistic(o, e)
    if per_bin:
        ctx.check(len(got) == n, "one value per bin")
        for i in range(n):
            ctx.eq(got[i], want[i], "per-bin value follows the formula")
    else:
        tot = want[0]
        for w in want[1:]:
            tot = tot + w
        ctx.eq(got, tot, "statistic is the sum of the per-bin formula")


@case("C17", quick=[dict(stat=s, n=1) for s in ALL if s != "ExtendedLL"],
      thorough=[dict(stat=s, n=2) for s in ALL if s != "ExtendedLL"], budget=100)
def sign(ctx, stat, n):
    """Never negative; zero where observed and expected agree."""
    ts = ctx.load("echidna.fit.test_statistic")
    cls = getattr(ts, stat)
    o, e = counts(ctx, "obs", n), counts(ctx, "exp", n)
    got = cls().compute_statistic(ctx.arr(o), ctx.arr(e))
    ctx.check(got >= -1e-9, "statistic is never negative")
    x = counts(ctx, "same", n)
    got = cls().compute_statistic(ctx.arr(x), ctx.arr(x))
    ctx.check(ctx.And(got <= 1e-9, got >= -1e-9), "statistic vanishes when observed = expected")
    per = cls(per_bin=True).compute_statistic(ctx.arr(x), ctx.arr(x))
    for i in range(n):
        ctx.check(ctx.And(per[i] <= 1e-9, per[i] >= -1e-9), "per-bin value vanishes when observed = expected")


@case("C17", quick=[dict(stat=s) for s in ALL])
def order(ctx, stat):
    """Reordering the bins does not change the statistic."""
    ts = ctx.load("echidna.fit.test_statistic")
    cls = getattr(ts, stat)
    o, e = counts(ctx, "obs", 2), counts(ctx, "exp", 2)
    a = cls().compute_statistic(ctx.arr(o), ctx.arr(e))
    b = cls().compute_statistic(ctx.arr([o[1], o[0]]), ctx.arr([e[1], e[0]]))
    ctx.eq(a, b, "bin order is irrelevant")


@case("C17", quick=[dict(stat=s) for s in ALL])
def penalty(ctx, stat):
    """Penalty term ((value - prior)/sigma)^2, halved for the log-likelihood."""
    ts = ctx.load("echidna.fit.test_statistic")
    t = getattr(ts, stat)()
    v, p = ctx.real("value"), ctx.real("prior")
    s = ctx.real("sigma", lo=0, lo_open=True)
    r = (v - p) / s
    f = 0.5 if stat == "BakerCousinsLL" else 1.
    ctx.eq(t.get_penalty_term(v, p, s), f * r * r, "penalty term")


@case("C17", quick=[dict(n=1)])
def up_per_bin_upward(ctx, n):
    """Bins with observed > expected contribute nothing to the per-bin upward statistic."""
    ts = ctx.load("echidna.fit.test_statistic")
    o, e = counts(ctx, "obs", n), counts(ctx, "exp", n)
    ctx.assume(o[0] > e[0] * 1.5)
    ctx.assume(o[0] >= 1)
    want = [refs(ctx, "BakerCousinsChiUp", o[i], e[i]) for i in range(n)]
    try:
        got = ts.BakerCousinsChiUp(per_bin=True).compute_statistic(o, e)
    except ValueError as ex:
        ctx.fail("per-bin upward statistic accepts an upward bin", "ValueError: %s" % ex)
        return
    for i in range(n):
        ctx.eq(got[i], want[i], "per-bin value of an upward bin is zero")


@case("C18", quick=[dict(stat=s, n=2) for s in ALL], thorough=[dict(stat=s, n=4) for s in ALL])
def no_side_effects(ctx, stat, n):
    """The caller's arrays keep their contents (up to 1e-30: exact_contents goes further)."""
    ts = ctx.load("echidna.fit.test_statistic")
    o, e = counts(ctx, "obs", n), counts(ctx, "exp", n)
    if stat == "BakerCousinsChiUp":
        not_upward(ctx, o, e)
    o0, e0 = ctx.snapshot(o), ctx.snapshot(e)
    for per_bin in ctx.choice("order", [(False, True), (True, False)]):
        t = getattr(ts, stat)(per_bin=per_bin)
        first = t.compute_statistic(o, e)
        for i in range(n):
            ctx.check(ctx.abs(o[i] - o0[i]) <= 1e-30, "observed contents unchanged")
            ctx.check(ctx.abs(e[i] - e0[i]) <= 1e-30, "expected contents unchanged")
        second = t.compute_statistic(o, e)
        ctx.eq(first, second, "second evaluation agrees")


@case("C18", quick=[dict(stat=s) for s in ALL])
def exact_contents(ctx, stat):
    """An empty bin stays exactly empty."""
    ts = ctx.load("echidna.fit.test_statistic")
    o, e = counts(ctx, "obs", 1), counts(ctx, "exp", 1)
    if stat == "BakerCousinsChiUp":
        not_upward(ctx, o, e)
    o0, e0 = ctx.snapshot(o), ctx.snapshot(e)
    per_bin = ctx.choice("per_bin", [False, True])
    getattr(ts, stat)(per_bin=per_bin).compute_statistic(o, e)
    ctx.check(o[0] == o0[0], "%s leaves observed exactly unchanged" % stat)
    ctx.check(e[0] == e0[0], "%s leaves expected exactly unchanged" % stat)


@case("C18", quick=[dict(stat=s) for s in ALL])
def after_other(ctx, stat):
    """A statistic evaluated after any other one on the same arrays equals a fresh evaluation."""
    ts = ctx.load("echidna.fit.test_statistic")
    o, e = counts(ctx, "obs", 1), counts(ctx, "exp", 1)
    other = ctx.choice("other", ALL)
    per_bin = ctx.choice("per_bin", [False, True])
    if per_bin and "BakerCousinsChiUp" in (stat, other):
        not_upward(ctx, o, e)
    fresh = getattr(ts, stat)(per_bin=per_bin).compute_statistic(ctx.arr(o), ctx.arr(e))
    getattr(ts, other)(per_bin=per_bin).compute_statistic(o, e)
    ctx.eq(getattr(ts, stat)(per_bin=per_bin).compute_statistic(o, e), fresh,
           "evaluation independent of earlier evaluations")


@case("C18", quick=[dict(stat=s) for s in ALL])
def shapes(ctx, stat):
    """Mismatched or multi-dimensional inputs are refused, matching ones accepted."""
    ts = ctx.load("echidna.fit.test_statistic")
    per_bin = ctx.choice("per_bin", [False, True])
    t = getattr(ts, stat)(per_bin=per_bin)
    so = ctx.choice("so", [1, 2, 3, (2, 1), (1, 2), (2, 2), (2, 1, 1)])
    se = ctx.choice("se", [1, 2, 3, (2, 1), (1, 2), (2, 2), (2, 1, 1)])
    o, e = ctx.reals("o", so, lo=1), ctx.reals("e", se, lo=1)
    if so == se and isinstance(so, int):
        if stat == "BakerCousinsChiUp" and per_bin:
            not_upward(ctx, o, e)
        r = t.compute_statistic(o, e)
        ctx.check((len(r) == so) if per_bin else True, "accepted")
    elif isinstance(so, int) and isinstance(se, int):
        ctx.raises(ValueError, t.compute_statistic, o, e, label="length mismatch refused")
    else:
        ctx.raises(TypeError, t.compute_statistic, o, e, label="non 1-d input refused")
