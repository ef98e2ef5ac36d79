from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, sp
from ..core import Unit, require

RULE = ("cases: sizes, bounds, values, interface; every coefficient is compared with a dense solve of the defining equations; "
        "non-trivial: values not all equal")
ASSUMPTIONS = ["coefficients compared to 1e-10 relative to the sum of |influence*value|"]

# the coefficients do not depend on the bounds at all
SCALES = gen.SCALE + [1e-300, 1e-200, 1e-160, 1e160, 1e200, 1e300]

KINDS = ["alloc", "inplace", "malloc", "minplace", "prefilter", "prefilter_out", "prefilter1", "coeffs", "coeffs_flat", "mcoeffs"]


def strat(d, kinds):
    @st.composite
    def s(draw):
        c = {"axes": draw(gen.axes("u" * d, scales=SCALES)), "v": draw(gen.values()), "kind": draw(st.sampled_from(kinds)),
             "m": draw(gen.nvals())}
        if draw(st.integers(0, 9)) == 0 and d <= 2:
            c["axes"][draw(st.integers(0, d - 1))]["n"] = draw(st.integers(30, 200 if d == 1 else 60))
        return c

    return s


def check(case, ctx):
    L = sp.lib()
    from interpolation.splines.filter_cubic import filter_coeffs, filter_mcoeffs

    axs, kind = case["axes"], case["kind"]
    d = len(axs)
    shape = gen.shape_of(axs)
    multi = kind.startswith("m")
    m = case["m"]
    V = gen.build_values(case["v"], shape + ((m,) if multi else ()))
    grid = ref.grid_obj(axs)
    cshape = tuple(n + 2 for n in shape) + ((m,) if multi else ())
    a = np.array([x["a"] for x in axs])
    b = np.array([x["b"] for x in axs])
    o = list(shape)
    V0 = V.copy()
    if kind in ("alloc", "malloc"):
        C = ctx.call("filter_cubic", L.filter_cubic, grid, V)
    elif kind in ("inplace", "minplace"):
        C = np.full(cshape, np.nan if m % 2 else 3.5)
        ctx.call("filter_cubic in place", L.filter_cubic, grid, V, C)
    elif kind == "prefilter":
        C = ctx.call("prefilter", L.prefilter, grid, V, k=3)
    elif kind == "prefilter_out":
        C = np.full(cshape, np.nan)
        ctx.call("prefilter out", L.prefilter, grid, V, out=C, k=3)
    elif kind == "prefilter1":
        C = ctx.call("prefilter(k=1)", L.prefilter, grid, V, k=1)
        require(isinstance(C, np.ndarray) and C.shape == V.shape and np.array_equal(C, V0),
                "prefilter(k=1) does not return the values")
        ctx.nontrivial(np.ptp(V) > 0)
        ctx.label(kind)
        return
    elif kind == "coeffs":
        C = ctx.call("filter_coeffs", filter_coeffs, a, b, o, V)
    elif kind == "coeffs_flat":
        C = ctx.call("filter_coeffs", filter_coeffs, list(a), list(b), tuple(o), V.ravel())
    else:
        Vm = V.reshape((-1, m)) if case["v"][1] % 2 else V
        C = ctx.call("filter_mcoeffs", filter_mcoeffs, a, b, o, Vm)
    sp.expect_array(kind, C, cshape)
    R = ref.filter_ref(V0, d)
    S = ref.filter_scale(V0, d)
    bad = ~(np.abs(C - R) <= 1e-10 * S + 1e-290)
    require(not bad.any(), lambda: "%s %dd sizes %s: coefficient %s is %r, expected %r" % (
        kind, d, shape, tuple(np.argwhere(bad)[0]), float(C[bad][0]), float(R[bad][0])))
    # the defining equations themselves: values reproduced, second differences zero at the ends
    T = C
    for j in range(d):
        n = shape[j]
        T = np.moveaxis(np.tensordot(ref.filt_matrix(n)[1:-1], T, (1, j)), 0, j)
        e = np.moveaxis(C, j, 0)
        s = np.moveaxis(S, j, 0)
        for tri in ((0, 1, 2), (-3, -2, -1)):
            z = e[tri[0]] - 2 * e[tri[1]] + e[tri[2]]
            zs = s[tri[0]] + 2 * s[tri[1]] + s[tri[2]]
            require(np.all(np.abs(z) <= 1e-9 * zs + 1e-290), "%s: second derivative at an end of axis %d is not zero" % (kind, j))
    tolv = 1e-9 * (np.abs(V0) + np.max(np.abs(V0), initial=0)) + 1e-290
    require(np.all(np.abs(T - V0) <= tolv), "%s: the coefficients do not reproduce the values" % kind)
    ctx.label(kind, "%dd" % d, *(["axis with 2 nodes"] if 2 in shape else []),
              *(["axis with 3 nodes"] if 3 in shape else []), *(["sizes differ"] if len(set(shape)) > 1 else []))
    ctx.nontrivial(np.ptp(V) > 0)


def units(tier, seed):
    us = []
    for d in (1, 2, 3, 4):
        us.append(Unit("new-%dd-s" % d, strat(d, ["alloc", "inplace"]), check, quick=400 if d < 4 else 250, cost=4))
        us.append(Unit("new-%dd-m" % d, strat(d, ["malloc", "minplace"]), check, quick=300 if d < 4 else 200, cost=5))
        us.append(Unit("prefilter-%dd" % d, strat(d, ["prefilter", "prefilter_out", "prefilter1"]), check, quick=100, cost=5))
        us.append(Unit("old-%dd" % d, strat(d, ["coeffs", "coeffs_flat", "mcoeffs"]), check, quick=400 if d < 4 else 250, cost=5))
    return us
