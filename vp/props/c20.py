from hypothesis import strategies as st
import numpy as np

from .. import ref2, smol
from ..core import Unit, require

RULE = ("cases: a grid with generated bounds, data, points in and slightly outside of the domain, other requested results; the gradient is compared with the exact "
        "derivative of the interpolating polynomial; non-trivial: bounds other than [-1,1] and level above 1")
ASSUMPTIONS = ["tolerance 1e-10 x sum of |derivative of basis| |inverse basis matrix| |data|"]


@st.composite
def cases(draw):
    return {"g": draw(smol.gridspec(maxpts=150, dmax=8)), "m": draw(st.sampled_from([None, None, 1, 2, 3])), "how": draw(st.sampled_from(["poly", "data", "linear"])),
            "s": draw(st.integers(0, 99999)), "N": draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 12), st.sampled_from([60, 130, 300]))), "fl": draw(st.integers(0, 7)), "edge": draw(st.booleans())}


def check(case, ctx):
    from interpolation.smolyak import SmolyakInterp

    spec, m = case["g"], case["m"]
    d = spec["d"]
    sg = smol.make(ctx, spec)
    pts, polys = ref2.sparse(d, spec["mu"])
    p = smol.match_rows("cube_grid", sg.cube_grid, pts, 1e-12)
    Bg = ref2.basis(polys, pts).astype(float)
    Binv = np.linalg.inv(Bg)
    r = np.random.RandomState(case["s"])
    tail = () if m is None else (m,)
    n = len(polys)
    case = dict(case, N=max(1, min(case["N"], 40000 // n)))
    if case["how"] == "data":
        f = r.standard_normal((n,) + tail)
        th = Binv @ f
    elif case["how"] == "poly":
        th = np.round(r.uniform(-2, 2, (n,) + tail), 3)
        f = Bg @ th
    else:
        slope = np.round(r.uniform(-3, 3, (d,) + tail), 3)
        f = np.tensordot(smol.to_dom(spec, pts), slope, (1, 0)) + 1.5
        th = Binv @ f
    vals = np.empty_like(f)
    vals[p] = f
    si = ctx.call("SmolyakInterp", SmolyakInterp, sg, vals)
    X = smol.to_dom(spec, r.uniform(-1.1, 1.1, (case["N"], d)))
    if case["edge"]:
        q = r.randint(0, 3, X.shape)
        X = np.where(q == 0, np.array(spec["b"]["lb"]), np.where(q == 1, np.array(spec["b"]["ub"]), X))
        X[0] = np.array(sg.grid)[r.randint(0, n)]
        ctx.label("points on the boundary and on the grid")
    fl = case["fl"]
    kw = dict(interp=bool(fl & 1), deriv=True, deriv_th=bool(fl & 2), deriv_X=bool(fl & 4))
    out = ctx.call("interpolate", si.interpolate, X, **kw)
    what = "gradient of SmolyakInterp(d=%d, mu=%s, bounds %s)" % (d, spec["mu"], spec["b"])
    if fl:
        grad = out[1 if fl & 1 else 0]
    else:
        grad = out
    C = smol.to_cube(spec, X)
    E = np.stack([ref2.basis(polys, C, j).astype(float) for j in range(d)], axis=1)  # (N, d, n)
    w = 2.0 / smol.width(spec)
    exp = np.tensordot(E, th, (2, 0)) * w.reshape((1, d) + (1,) * len(tail))
    sc = np.abs(Binv) @ np.abs(f)
    # coordinates carry a rounding error that enters through second derivatives, bounded by 4 deg^4
    top = max(max(q) for q in polys)
    cerr = float(np.max(8 * smol.dom_tol(spec) / smol.width(spec))) * 4 * top**4
    tol = (np.tensordot(np.abs(E), sc, (2, 0)) * 1e-10 + cerr * np.sum(sc, axis=0)) * w.reshape((1, d) + (1,) * len(tail)) + 1e-290
    require(np.shape(grad) == exp.shape, lambda: "%s has shape %s, expected %s" % (what, np.shape(grad), exp.shape))
    bad = ~(np.abs(grad - exp) <= tol)
    require(not bad.any(), lambda: "%s: entry %s at %s: got %r, expected %r (tol %.2g)" % (
        what, np.argwhere(bad)[0].tolist(), X[np.argwhere(bad)[0][0]].tolist(), float(np.asarray(grad)[bad][0]), float(exp[bad][0]), float(tol[bad][0])))
    if case["N"] > 12:
        ctx.label("many points")
    if fl & 1:
        v1 = ctx.call("interpolate", si.interpolate, X)
        vs = np.abs(ref2.basis(polys, C).astype(float)) @ sc
        require(np.shape(out[0]) == np.shape(v1) and np.all(np.abs(out[0] - v1) <= 1e-10 * vs), what + ": asking for the gradient changed the values")
        ctx.label("values too")
    smol.labels(ctx, spec)
    ctx.label("data " + case["how"], "vector-valued" if m else "scalar")
    ctx.nontrivial(np.max(spec["mu"]) > 1 and spec["b"]["kind"] != "default")


def units(tier, seed):
    return [Unit("grad%d" % i, cases, check, quick=500, thorough=4000, cost=6) for i in range(8)]
