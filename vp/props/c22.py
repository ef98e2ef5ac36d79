from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, ref2, sp
from ..core import Unit, require

RULE = ("cases: increasing nodes, values, slopes, points inside, on nodes and outside; compared with the Hermite cubic in Newton form (long double) and, for data "
        "taken from a cubic, with the cubic itself; non-trivial: a point strictly between two nodes")
ASSUMPTIONS = ["tolerance 1e-12 of |values| + |slopes| x cell width, plus rounding of the coordinates"]


@st.composite
def cases(draw):
    return {"ax": draw(gen.axes("n"))[0], "kind": draw(st.sampled_from(["data", "data", "cubic"])), "v": draw(gen.values()), "w": draw(gen.values()),
            "c": draw(st.lists(st.sampled_from([0.0, 1.0, -2.0, 0.5, 3.25]), min_size=4, max_size=4)), "p": draw(gen.points(1, max_bulk=16)),
            "lay": draw(st.sampled_from(["plain", "plain", "strided", "readonly", "int"]))}


def lay(a, how):
    if how == "strided":
        b = np.full(2 * len(a) + 1, np.nan)
        b[1::2] = a
        return b[1::2]
    if how == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


def check(case, ctx):
    from interpolation.splines import hermite as H

    x = ref.ax_nodes(case["ax"])
    if case["lay"] == "int":
        x = np.unique(np.round(np.clip(x, -1e9, 1e9) * 4))
        if len(x) < 2:
            x = np.array([0.0, 3.0])
    n = len(x)
    ax = {"k": "n", "x": x.tolist()}
    if case["kind"] == "cubic":
        mid, w = (x[0] + x[-1]) / 2, (x[-1] - x[0])
        c = case["c"]
        q = (x - mid) / w
        y = c[0] + q * (c[1] + q * (c[2] + q * c[3]))
        yp = (c[1] + q * (2 * c[2] + q * 3 * c[3])) / w
    else:
        y, yp = gen.build_values(case["v"], (n,)), gen.build_values(case["w"], (n,))
    P = gen.build_points([ax], case["p"])[:, 0].copy()
    exp, tol = ref2.hermite(x, y, yp, P)
    args = [lay(v, case["lay"]) for v in (x, y, yp)]
    if case["lay"] == "int":
        args[0] = x.astype(np.int64)
    keep = [np.array(a) for a in args]

    def cmp(what, got, e=exp, t=tol):
        bad = ~(np.abs(got - e) <= t)
        require(not bad.any(), lambda: "%s at %r (nodes %s): got %r, expected %r" % (
            what, float(P[np.argwhere(bad)[0][0]]), x.tolist() if n < 8 else n, float(got[bad][0]), float(e[bad][0])))

    vec = sp.expect_array("HermiteInterpolationVect", ctx.call("HermiteInterpolationVect", H.HermiteInterpolationVect, P, *args), (len(P),))
    cmp("HermiteInterpolationVect", vec)
    idx = np.arange(min(len(P), 8))
    one = np.array([float(ctx.call("HermiteInterpolation", H.HermiteInterpolation, float(P[i]), *args)) for i in idx], dtype=float)
    cmp("HermiteInterpolation", one, exp[idx], tol[idx])
    require(all(np.array_equal(a, b) for a, b in zip(args, keep)), "an argument was modified")
    # one cell directly
    for i in idx:
        if x[0] < P[i] < x[-1]:
            j = int(np.clip(np.searchsorted(x, P[i], side="right") - 1, 0, n - 2))
            g = sp.expect_scalar("hermite_interp", ctx.call("hermite_interp", H.hermite_interp, float(P[i]), float(x[j]), float(x[j + 1]), float(y[j]), float(y[j + 1]),
                                                            float(yp[j]), float(yp[j + 1])))
            require(abs(g - exp[i]) <= tol[i], lambda: "hermite_interp at %r: %r, expected %r" % (P[i], g, exp[i]))
    # nodes are reproduced
    at = ctx.call("HermiteInterpolationVect", H.HermiteInterpolationVect, x.astype(float), *args)
    sc = 1e-12 * (np.abs(y) + np.max(np.abs(yp)) * np.max(np.diff(x))) * (1 + 64 * ref.EPS * 1e12 * np.max(np.abs(x)) / np.min(np.diff(x)))
    require(np.all(np.abs(at - y) <= sc + 1e-290), "values at the nodes are not reproduced")
    if case["kind"] == "cubic":
        ins = (P >= x[0]) & (P <= x[-1])
        q = (P[ins] - mid) / w
        cub = c[0] + q * (c[1] + q * (c[2] + q * c[3]))
        cond = 1 + np.max(np.abs(x)) / np.min(np.diff(x))
        t2 = 1e-11 * sum(abs(v) for v in c) * (1 + 1e-4 * cond) * (1 + w / np.min(np.diff(x)) * 1e-3) + 1e-290
        require(np.all(np.abs(vec[ins] - cub) <= t2), lambda: "the cubic %s is not recovered: %s against %s" % (c, vec[ins].tolist(), cub.tolist()))
        ctx.label("cubic recovered")
    gen.label_points(ctx, [ax], P[:, None])
    ctx.label("layout " + case["lay"])
    ctx.nontrivial(bool(np.any((P > x[0]) & (P < x[-1]) & ~np.isin(P, x))) and np.ptp(y) > 0)


def check_basis(case, ctx):
    """the four basis functions: values and slopes at both ends, and the cubics in between"""
    from interpolation.splines import hermite as H

    t = float(case)
    h = ctx.call("hermite_splines", H.hermite_splines, t)
    require(len(h) == 4, "hermite_splines returned %d numbers" % len(h))
    exp = [(1 + 2 * t) * (1 - t) ** 2, t * (1 - t) ** 2, t * t * (3 - 2 * t), t * t * (t - 1)]
    sc = 1e-13 * (1 + abs(t)) ** 3
    for q in range(4):
        require(abs(h[q] - exp[q]) <= sc * 4, lambda: "hermite_splines(%r)[%d] = %r, expected %r" % (t, q, h[q], exp[q]))
    ctx.nontrivial(0 < t < 1)


def units(tier, seed):
    return [Unit("interp%d" % i, cases, check, quick=500, thorough=10000, cost=3) for i in range(4)] + [
        Unit("basis", lambda: st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.25]), st.floats(-2, 3)), check_basis, quick=400, cost=1)]
