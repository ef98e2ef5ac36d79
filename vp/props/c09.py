from hypothesis import strategies as st
import importlib
import numpy as np

from .. import gen, ref, source, sp
from ..core import Unit, require

RULE = ("cases: bounds, sizes, coefficients or values of several splines, points inside and outside; values and gradients are compared with the "
        "spline those coefficients define; non-trivial: at least one point and some gradient entry not zero")
ASSUMPTIONS = ["relative tolerance 1e-10 of the sum of |weight*coefficient|",
               "quick tier compiles the 4d routine with LLVM optimisation off (same semantics, 25 s instead of 200 s)"]


def strat(d, kinds):
    @st.composite
    def s(draw):
        return dict(d=d, kind=draw(st.sampled_from(kinds)), axes=draw(gen.axes("u" * d)), v=draw(gen.values()),
                    m=draw(gen.nvals()), p=draw(gen.points(d, max_bulk=20)))

    return s


def check(case, ctx):
    axs, d, kind, m = case["axes"], case["d"], case["kind"], case["m"]
    P = gen.build_points(axs, case["p"])
    N = len(P)
    shape = gen.shape_of(axs)
    a = [x["a"] for x in axs]
    b = [x["b"] for x in axs]
    o = [x["n"] for x in axs]
    if kind in ("func", "func_out", "func_arr"):
        G = importlib.import_module("interpolation.splines.eval_cubic").vec_eval_cubic_splines_G
        C = gen.build_values(case["v"], tuple(n + 2 for n in shape) + (m,))
        k = "b"
        what = "vec_eval_cubic_splines_G"
        if kind == "func_out":
            v, dv = np.full((N, m), np.nan), np.full((N, d, m), np.nan)
            r = ctx.call(what, G, a, b, o, C, P, v, dv)
            require(len(r) == 2, "two results expected")
            require(np.array_equal(r[0], v, equal_nan=True) and np.array_equal(r[1], dv, equal_nan=True),
                    "returned results differ from the preallocated ones")
        else:
            if kind == "func_arr":
                a, b, o = np.array(a), np.array(b), np.array(o)
            r = ctx.call(what, G, a, b, o, C, P)
            require(len(r) == 2, "two results expected")
            v, dv = r
    else:
        S = sp.lib().CubicSplines
        C = gen.build_values(case["v"], shape + (m,))
        k = 3
        what = "CubicSplines.interpolate(diff=True)"
        s = ctx.call("CubicSplines", S, a, b, o, C)
        r = ctx.call(what, s.interpolate, P, diff=True)
        require(len(r) == 2, "two results expected")
        v, dv = r
    sp.expect_array(what + " values", v, (N, m))
    sp.expect_array(what + " gradients", dv, (N, d, m))
    idx = np.arange(N)
    sp.compare(what + " values %dd" % d, ref.interpolant(axs, C, P, k=k), idx, v, P)
    for j in range(d):
        R = ref.interpolant(axs, C, P, k=k, orders=tuple(int(i == j) for i in range(d)))
        sp.compare("%s %dd derivative along axis %d" % (what, d, j), R, idx, dv[:, j, :], P)
    gen.label_points(ctx, axs, P)
    ctx.label(kind, "%dd" % d, "m=%d" % m)
    ctx.nontrivial(N > 0 and np.any(dv != 0))


def units(tier, seed):
    us = []
    for d in (1, 2, 3):
        us.append(Unit("func-%dd" % d, strat(d, ["func", "func_out", "func_arr"]), check, quick=500, cost=4 * d))
        us.append(Unit("object-%dd" % d, strat(d, ["object"]), check, quick=300, cost=5 * d))
        us.append(source.unit("func-%dd" % d, strat(d, ["func", "func_out", "func_arr"]), check, quick=300, thorough=4000, cost=4 * d))
    us.append(source.unit("func-4d", strat(4, ["func", "func_out", "func_arr"]), check, quick=120, thorough=1500, cost=40))
    env = {"NUMBA_OPT": "0"} if tier == "quick" else None
    us.append(Unit("func-4d", strat(4, ["func", "func_out", "object"]), check, quick=150, thorough=1500, cost=100, env=env))
    return us
