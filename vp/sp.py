"""Spline evaluation calls in all their forms (public functions only)."""
import numpy as np

from .core import Violation, require

MODES = ["linear", "nearest", "constant", "default"]
FORMS = ["vec", "point", "tuple", "mvec", "mpoint", "vec_out", "mvec_out", "mpoint_out"]


def lib():
    import interpolation.splines as s

    return s


def opt(mode):
    o = lib().extrap_options
    return {"linear": o.LINEAR, "nearest": o.NEAREST, "constant": o.CONSTANT}[mode]


def expect_array(what, got, shape):
    require(isinstance(got, np.ndarray), lambda: "%s returned %s, expected an array" % (what, type(got).__name__))
    require(got.shape == tuple(shape), lambda: "%s returned shape %s, expected %s" % (what, got.shape, tuple(shape)))
    require(got.dtype == np.float64, lambda: "%s returned dtype %s" % (what, got.dtype))
    return got


def expect_scalar(what, got):
    require(isinstance(got, (float, np.floating)) and np.ndim(got) == 0,
            lambda: "%s returned %s, expected a number" % (what, type(got).__name__))
    return float(got)


def evaluate(ctx, fn, what, grid, C, P, form, mode="default", poison=np.nan, maxpoints=6):
    """fn: eval_linear / eval_cubic.  Returns (indices of points used, values (N[,m]))."""
    extra = () if mode == "default" else (opt(mode),)
    what = "%s[%s,%s]" % (what, form, mode)
    N = P.shape[0]
    if form in ("vec", "mvec"):
        r = ctx.call(what, fn, grid, C, P, *extra)
        shp = (N,) if form == "vec" else (N, C.shape[-1])
        return np.arange(N), expect_array(what, r, shp)
    if form in ("vec_out", "mvec_out"):
        shp = (N,) if form == "vec_out" else (N, C.shape[-1])
        out = np.full(shp, poison)
        ctx.call(what, fn, grid, C, P, out, *extra)
        return np.arange(N), out
    # one point at a time: spread over the list
    idx = np.unique(np.linspace(0, N - 1, min(N, maxpoints)).astype(int)) if N else np.array([], dtype=int)
    m = C.shape[-1]
    if form in ("point", "tuple"):
        vals = np.empty(len(idx))
        for q, i in enumerate(idx):
            p = P[i].copy() if form == "point" else tuple(float(v) for v in P[i])
            vals[q] = expect_scalar(what, ctx.call(what, fn, grid, C, p, *extra))
        return idx, vals
    vals = np.empty((len(idx), m))
    for q, i in enumerate(idx):
        p = P[i].copy()
        if form == "mpoint":
            vals[q] = expect_array(what, ctx.call(what, fn, grid, C, p, *extra), (m,))
        elif form == "mpoint_out":
            out = np.full(m, poison)
            ctx.call(what, fn, grid, C, p, out, *extra)
            vals[q] = out
        else:
            raise ValueError(form)
    return idx, vals


def is_multi(form):
    return form.startswith("m")


def compare(what, r, idx, got, P):
    """r: ref.Ref over all points; idx: evaluated ones"""
    from .gen import fmt_first
    from .ref import Ref

    sub = Ref([a[idx] for a in r.alts], r.tol[idx] if np.ndim(r.tol) else r.tol)
    bad = sub.bad(got)
    if bad.any():
        raise Violation("%s: %s" % (what, fmt_first(bad, got, sub, P[idx])))
