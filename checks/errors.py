"""C29: error arrays."""
from engine.registry import case
from checks.common import indices


# how an array lies in memory: (shape of the array behind it, view of it)
LAYOUTS = {"as is": (lambda s: s, lambda a: a),
           "transposed": (lambda s: s[::-1], lambda a: a.T),
           "reversed": (lambda s: s, lambda a: a[tuple(slice(None, None, -1) for _ in a.shape)]),
           "every other": (lambda s: tuple(2 * n for n in s), lambda a: a[tuple(slice(None, None, 2) for _ in a.shape)]),
           "axes swapped": (lambda s: (s[-1],) + s[1:-1] + (s[0],) if len(s) > 1 else s, lambda a: a.swapaxes(0, -1))}


def laid_out(ctx, layout, name, shape, *rng):
    """An array of inputs of the given shape that is a view of another one."""
    behind, view = LAYOUTS[layout]
    return view(ctx.reals(name, behind(tuple(shape)), *rng))


@case("C29", quick=[dict(shape=s, lin=l) for s in ((1,), (3,), (2, 2), (1, 2, 2)) for l in ("lin", "frac", "both")],
      thorough=[dict(shape=s, lin=l) for s in ((6,), (3, 3), (2, 2, 2)) for l in ("lin", "frac", "both")])
def formula(ctx, shape, lin):
    u = ctx.load("echidna.utilities")
    scale = ctx.choice("scale", ["linear", "log", "log10"])
    down = ctx.choice("sign", [False, True])
    layout = ctx.choice("layout", list(LAYOUTS) if scale == "linear" else ["as is", "transposed"])
    v = laid_out(ctx, layout, "v", shape, *((1e-3, 1e6) if scale != "linear" else (-1e6, 1e6)))
    e = ctx.real("err", -5, 0, hi_open=True) if down else ctx.real("err", 0, 5, lo_open=True)
    f = ctx.real("frac", -3, 0, hi_open=True) if down else ctx.real("frac", 0, 3, lo_open=True)
    before = ctx.snapshot(v)
    kw = {} if scale == "linear" else {scale: True}
    if lin == "lin":
        default = ctx.choice("default", [False, True])
        if default:
            e = 0.01
        got = u.get_array_errors(v, **(kw if default else dict(kw, lin_err=e)))
    elif lin == "frac":
        got = u.get_array_errors(v, lin_err=ctx.choice("no_lin", [None, 0., False]), frac_err=f, **kw)
    else:
        got = u.get_array_errors(v, lin_err=e, frac_err=f, **kw)
    ctx.check(tuple(got.shape) == tuple(shape), "errors have the shape of the values")
    ctx.eq(v, before, "the values are not changed")
    if tuple(got.shape) != tuple(shape):
        return
    import math
    l10 = math.log(10.)
    for i in indices(shape):
        x = before[i]
        if scale == "linear":
            want = e if lin != "frac" else x * f - x
        elif lin != "frac":
            want = x * ctx.exp(e if scale == "log" else e * l10) - x
        else:
            want = ctx.exp(f * ctx.log(x)) - x
        ctx.eq(got[i], want, "error of each value")


# whole numbers, in the types in which counts come
WHOLE = {"int": lambda np: np.array([[3, 1], [20, 7]]), "by columns": lambda np: np.array([[3, 1], [20, 7]]).T, "int32": lambda np: np.array([5, 1, 2], dtype=np.int32),
         "uint32": lambda np: np.array([4, 200], dtype=np.uint32)}


@case("C29", quick=[dict(kind=k) for k in sorted(WHOLE)])
def whole(ctx, kind):
    """Arrays of another type than float (the values are concrete; the error is symbolic on the linear scale)."""
    import math
    import numpy as np
    u = ctx.load("echidna.utilities")
    v = WHOLE[kind](np)
    old = v.copy()
    scale = ctx.choice("scale", ["linear", "log", "log10"])
    frac = ctx.choice("frac", [False, True])
    if scale == "linear":
        e = ctx.real("err", -3, 3)
        ctx.assume((e < -0.01) | (e > 0.01))
    else:
        e = ctx.choice("e", [0.5, -1., 2.25])
    kw = {} if scale == "linear" else {scale: True}
    got = u.get_array_errors(v, **dict(kw, lin_err=None if frac else e, frac_err=e if frac else None))
    ctx.check(tuple(got.shape) == v.shape, "errors have the shape of the values")
    ctx.check(v.dtype == old.dtype and bool((v == old).all()), "the values are not changed")
    for i in indices(v.shape):
        x = float(old[i])
        if scale == "linear":
            want = x * e - x if frac else e
        elif frac:
            want = math.exp(e * math.log(x)) - x
        else:
            want = x * math.exp(e * (1. if scale == "log" else math.log(10.))) - x
        if scale == "linear":
            ctx.eq(got[i], want, "error of each value")
        else:
            ctx.check(abs(float(got[i]) - want) <= 1e-9 * max(1., abs(want)), "error of each value")


@case("C29", quick=[dict()])
def refused(ctx):
    u = ctx.load("echidna.utilities")
    v = ctx.reals("v", (2,), 1, 10)
    before = ctx.snapshot(v)
    kw = ctx.choice("scale", [{}, {"log": True}, {"log10": True}])
    ctx.raises(ValueError, u.get_array_errors, v, lin_err=ctx.choice("lin", [None, 0.]),
               frac_err=ctx.choice("frac", [None, 0.]), label="asking for no error is refused", **kw)
    ctx.eq(v, before, "the values are not changed")
