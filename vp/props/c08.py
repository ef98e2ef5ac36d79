from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, source, sp
from ..core import Unit, require

RULE = ("cases: bounds, sizes, coefficients (arbitrary, or filtered values), points inside and outside; each compatibility call is compared with "
        "eval_cubic / eval_linear on the same spline and points; non-trivial: at least one point and results not all zero")
ASSUMPTIONS = ["equality up to rounding (1e-10 of the sum of |weight*coefficient|)"]


def strat(cfg):
    d = cfg["d"]

    @st.composite
    def s(draw):
        return dict(cfg, axes=draw(gen.axes("u" * d)), v=draw(gen.values()), m=draw(gen.nvals()),
                    filt=draw(st.booleans()), p=draw(gen.points(d, max_bulk=16)),
                    lay=draw(st.sampled_from(["C", "C", "strided", "F"])) if cfg.get("lay") else "C")

    return s


def any_strat(d, fns):
    @st.composite
    def s(draw):
        return draw(strat(dict(d=d, fn=draw(st.sampled_from(fns)), lay=True))())

    return s


def empty(shape, lay):
    """an array for results, in the given memory layout, and its surroundings"""
    if lay == "strided":
        big = np.full(tuple(2 * n + 1 for n in shape), np.nan)
        return big[tuple(slice(1, 2 * n + 1, 2) for n in shape)]
    return np.full(shape, np.nan, order=lay)


def check(case, ctx):
    L = sp.lib()
    from interpolation.splines import eval_cubic as _  # noqa: F401  (the function)
    import importlib

    EC = importlib.import_module("interpolation.splines.eval_cubic")
    axs, d, fn, m = case["axes"], case["d"], case["fn"], case["m"]
    a = np.array([x["a"] for x in axs])
    b = np.array([x["b"] for x in axs])
    o = np.array([x["n"] for x in axs])
    grid = ref.grid_obj(axs)
    P = gen.build_points(axs, case["p"])
    N = len(P)
    shape = gen.shape_of(axs)
    if fn.startswith("ml"):
        ML = importlib.import_module("interpolation.splines.multilinear_numba")
        multi = fn in ("mlvec", "mlvec_out")
        C = gen.build_values(case["v"], shape + ((m,) if multi else ()))
        R = ref.interpolant(axs, C, P, k=1)
        base = ctx.call("eval_linear", L.eval_linear, grid, C, P)
        f = ML.vec_multilinear_interpolation if multi else ML.multilinear_interpolation
        if fn.endswith("out"):
            got = empty(base.shape, case.get("lay", "C"))
            ctx.call(fn, f, a, b, o, C, P, got)
        else:
            got = ctx.call(fn, f, a, b, o, C, P)
        idx = np.arange(N)
    else:
        kernel = fn.startswith("k_")
        name = fn.replace("k_", "").replace("_out", "")
        multi = name.endswith("splines")
        vec = name.startswith("vec_")
        mm = (m,) if multi else ()
        if case["filt"] and d < 4:
            C = ctx.call("filter_cubic", L.filter_cubic, grid, gen.build_values(case["v"], shape + mm))
        else:
            C = gen.build_values(case["v"], tuple(n + 2 for n in shape) + mm)
        R = ref.interpolant(axs, C, P, k="b")
        if kernel:
            f = getattr(importlib.import_module("interpolation.splines.eval_cubic_numba"), "%s_%d" % (name, d))
        else:
            f = getattr(EC, name)
        if vec:
            idx = np.arange(N)
            base = ctx.call("eval_cubic", L.eval_cubic, grid, C, P)
            if kernel or fn.endswith("_out"):
                got = empty(base.shape, case.get("lay", "C"))
                ctx.call(fn, f, a, b, o, C, P, got)
            else:
                got = ctx.call(fn, f, a, b, o, C, P)
        else:
            idx = np.unique(np.linspace(0, N - 1, min(N, 5)).astype(int))
            base = np.empty((len(idx),) + mm)
            got = np.full((len(idx),) + mm, np.nan)
            for q, i in enumerate(idx):
                p = P[i].copy()
                base[q] = ctx.call("eval_cubic", L.eval_cubic, grid, C, p)
                if multi and (kernel or fn.endswith("_out")):
                    out = empty((m,), case.get("lay", "C"))
                    ctx.call(fn, f, a, b, o, C, p, out)
                    got[q] = out
                else:
                    r = ctx.call(fn, f, a, b, o, C, p)
                    require(np.shape(r) == mm, lambda: "%s returned shape %s" % (fn, np.shape(r)))
                    got[q] = r
    got = np.asarray(got)
    require(got.shape == base.shape, lambda: "%s returned shape %s, current evaluator %s" % (fn, got.shape, base.shape))
    tol = R.tol[idx]
    bad = ~((np.abs(got - base) <= tol) | (got == base))
    require(not bad.any(), lambda: "%s (%dd) at %s: %r, current evaluator gives %r" % (
        fn, d, P[idx][np.argwhere(bad)[0][0]].tolist(), float(got[bad][0]), float(base[bad][0])))
    gen.label_points(ctx, axs, P)
    ctx.label(fn, "%dd" % d)
    ctx.nontrivial(len(idx) > 0 and np.any(base != 0))


def units(tier, seed):
    us = []
    base = ["eval_cubic_spline", "vec_eval_cubic_spline", "eval_cubic_splines", "vec_eval_cubic_splines"]
    fns = base + ["vec_eval_cubic_spline_out", "eval_cubic_splines_out", "vec_eval_cubic_splines_out"] + ["k_" + b for b in base]
    for d in (1, 2, 3, 4):
        for fn in fns:
            if d == 4 and tier == "quick" and fn.endswith("_out"):
                continue
            env = {"NUMBA_OPT": "0"} if d == 4 and tier == "quick" else None
            us.append(Unit("%s-%dd" % (fn, d), strat(dict(d=d, fn=fn, lay=d == 1 and fn.endswith("_out"))), check, quick={1: 120, 2: 100, 3: 80, 4: 60}[d],
                           cost={1: 2, 2: 4, 3: 8, 4: 30}[d], env=env))
        for fn in ("ml", "ml_out", "mlvec", "mlvec_out"):
            us.append(Unit("%s-%dd" % (fn, d), strat(dict(d=d, fn=fn, lay=d == 1 and fn.endswith("_out"))), check, quick=80, cost=2 * d))
        # all of them (not compiled unless something differs)
        us.append(source.unit("any-%dd" % d, any_strat(d, fns + ["ml", "ml_out", "mlvec", "mlvec_out"]), check,
                              quick={4: 200}.get(d, 400), thorough={4: 2000}.get(d, 5000), cost=4 * d * d))
    return us
