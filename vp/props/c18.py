from hypothesis import strategies as st
import numpy as np

from .. import ref2, smol
from ..core import Unit, require

RULE = ("cases: dimension, level (isotropic or per axis), bounds in every accepted form, probe points for the maps, or one invalid argument; points, basis and "
        "level indices are compared as sets with the construction from the definition; non-trivial: level above 1 in some direction, or an invalid argument")
ASSUMPTIONS = ["order of points and of basis polynomials is free, but the basis matrix has to belong to them", "coordinates to 1e-12, basis values to 1e-11"]


@st.composite
def cases(draw):
    return {"g": draw(smol.gridspec(dmax=8, bigpts=1600, bigrate=40)), "s": draw(st.integers(0, 9999))}


def check(case, ctx):
    spec = case["g"]
    d, mu = spec["d"], spec["mu"]
    g = smol.make(ctx, spec)
    pts, polys = ref2.sparse(d, mu)
    what = "SmolyakGrid(%d, %s)" % (d, mu)
    smol.match_rows(what + ".cube_grid", g.cube_grid, pts, 1e-12)
    cube = np.asarray(g.cube_grid)
    exp = smol.to_dom(spec, cube)
    require(g.grid.shape == exp.shape and np.all(np.abs(g.grid - exp) <= smol.dom_tol(spec)), what + ".grid is not cube_grid mapped onto the bounds")
    require(np.all(np.abs(g.lb - np.array(spec["b"]["lb"])) == 0) and np.all(np.abs(g.ub - np.array(spec["b"]["ub"])) == 0), what + ": bounds changed")
    # level indices
    inds = [tuple(int(v) for v in i) for i in g.inds]
    lev = ref2.levels(d, mu)
    require(len(inds) == len(set(inds)) and set(inds) == set(lev), lambda: "%s.inds: missing %s, extra or repeated %s" % (
        what, sorted(set(lev) - set(inds))[:3], sorted(set(inds) - set(lev))[:3]))
    # basis
    pin = [tuple(int(v) for v in p) for p in g.pinds]
    require(len(pin) == len(pts), lambda: "%s has %d basis polynomials for %d points" % (what, len(pin), len(pts)))
    require(set(pin) == set(polys) and len(set(pin)) == len(pin), lambda: "%s.pinds: missing %s, foreign %s" % (
        what, sorted(set(polys) - set(pin))[:3], sorted(set(pin) - set(polys))[:3]))
    B = ref2.basis(pin, cube).astype(float)
    require(g.B.shape == B.shape and np.all(np.abs(g.B - B) <= 1e-11), what + ".B does not hold the basis polynomials at the points")
    LU = np.asarray(g.B_L) @ np.asarray(g.B_U)
    require(np.all(np.abs(LU - B) <= 1e-10 * len(B)), what + ": B_L B_U is not B")
    # maps
    r = np.random.RandomState(case["s"])
    X = r.uniform(-1.5, 1.5, (5, d))
    D = ctx.call("cube2dom", g.cube2dom, X)
    require(np.all(np.abs(D - smol.to_dom(spec, X)) <= smol.dom_tol(spec) * 3), what + ".cube2dom is not the affine map")
    back = ctx.call("dom2cube", g.dom2cube, D)
    t = 4 * smol.dom_tol(spec) / smol.width(spec) + 1e-12
    require(np.all(np.abs(back - X) <= t), what + ".dom2cube is not the inverse of cube2dom")
    require(np.all(np.abs(ctx.call("dom2cube", g.dom2cube, smol.to_dom(spec, X)) - X) <= t), what + ".dom2cube is not the inverse affine map")
    x1 = ctx.call("cube2dom", g.cube2dom, X[0])
    require(np.shape(x1) == (d,) and np.all(np.abs(x1 - D[0]) <= smol.dom_tol(spec)), what + ".cube2dom of one point")
    corners = np.array([[-1.0] * d, [1.0] * d])
    cd = ctx.call("cube2dom", g.cube2dom, corners)
    require(np.all(np.abs(cd - np.array([spec["b"]["lb"], spec["b"]["ub"]])) <= smol.dom_tol(spec)), what + ".cube2dom does not map the corners to the bounds")
    text = ctx.call("repr", repr, g)
    rows = dict(q.strip().split(": ", 1) for q in text.splitlines()[1:])
    require(rows.get("d") == str(d) and rows.get("npoints") == str(len(pts)) and rows.get("mu") == (str(mu) if isinstance(mu, int) else " x ".join(map(str, mu))),
            lambda: "%s with %d points describes itself as %r" % (what, len(pts), text))
    smol.labels(ctx, spec)
    ctx.label("points %s" % ("<20" if len(pts) < 20 else "<100" if len(pts) < 100 else ">=100"))
    ctx.nontrivial(np.max(mu) > 1)


@st.composite
def bad(draw):
    kind = draw(st.sampled_from(["d", "mu", "mus", "mulen", "lb", "ub"]))
    d = draw(st.integers(2, 5))
    k = draw(st.integers(0, 3))
    mu = draw(smol.level(d, 120))
    return {"kind": kind, "d": d, "mu": mu, "k": k, "arr": draw(st.booleans())}


def check_bad(case, ctx):
    from interpolation.smolyak import SmolyakGrid

    d, mu, k, kind = case["d"], case["mu"], case["k"], case["kind"]
    conv = np.array if case["arr"] else list
    if not isinstance(mu, int):
        mu = conv(mu)
    if kind == "d":
        dd = 1 - (k % 2)
        ctx.rejects("SmolyakGrid with d=%d" % dd, SmolyakGrid, dd, 2)
    elif kind == "mu":
        ctx.rejects("SmolyakGrid with mu=%d" % -k, SmolyakGrid, d, -k)
    elif kind == "mus":
        m = [2] * d
        m[k % d] = 0 if k % 2 else -1
        ctx.rejects("SmolyakGrid with mu=%s" % m, SmolyakGrid, d, conv(m))
    elif kind == "mulen":
        m = [2] * (d + (1 if k % 2 else -1))
        ctx.rejects("SmolyakGrid(%d, %s)" % (d, m), SmolyakGrid, d, conv(m))
    elif kind == "lb":
        n = d + (1 + k if k % 2 else -1)
        ctx.rejects("SmolyakGrid(%d) with %d lower bounds" % (d, n), lambda: SmolyakGrid(d, mu, lb=conv([-2.0] * n), ub=conv([3.0] * d)))
    else:
        n = d + (1 + k if k % 2 else -1)
        ctx.rejects("SmolyakGrid(%d) with %d upper bounds" % (d, n), lambda: SmolyakGrid(d, mu, lb=conv([-2.0] * d), ub=conv([3.0] * n)))
    ctx.label("rejected: " + kind)
    ctx.nontrivial()


def units(tier, seed):
    return [Unit("grid%d" % i, cases, check, quick=220, thorough=2500, cost=6) for i in range(7)] + [Unit("rejections", bad, check_bad, quick=300, cost=2)]
