"""Generators and judgements shared by the Smolyak checks."""
from hypothesis import strategies as st
import numpy as np

from . import ref2
from .core import require

MAXPTS = {"quick": 320, "big": 900}

FLO = st.one_of(st.sampled_from([0.0, -1.0, 1.0, -3.7, 10.0, 100.0, -0.5]), st.floats(-50, 50).map(lambda v: round(v, 3)))
WID = st.one_of(st.sampled_from([1.0, 2.0, 0.1, 7.3, 30.0]), st.floats(0.05, 20).map(lambda v: round(v, 3) + 0.01))


@st.composite
def level(draw, d, maxpts=320):
    if draw(st.booleans()):
        mu = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6]))
        while mu > 1 and ref2.npoints(d, mu) > maxpts:
            mu -= 1
        return mu
    mu = draw(st.lists(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5, 6]), min_size=d, max_size=d))
    while max(mu) > 1 and ref2.npoints(d, mu) > maxpts:
        mu = [max(1, m - 1) if m == max(mu) else m for m in mu]
    return mu


@st.composite
def bounds(draw, d):
    kind = draw(st.sampled_from(["default", "list", "array", "scalar", "int", "lb", "ub", "ints", "intarray", "mixed", "unit", "similar", "tuple", "npint", "int8"]))
    if kind == "default":
        return {"kind": kind, "lb": [-1.0] * d, "ub": [1.0] * d}
    if kind in ("scalar", "int", "npint"):
        a = draw(st.integers(-9, 9))
        w = draw(st.integers(1, 9))
        if kind == "scalar":
            a, w = a + 0.25, w + 0.5
        return {"kind": kind, "lb": [float(a)] * d, "ub": [float(a + w)] * d}
    if kind in ("ints", "intarray", "mixed"):  # whole numbers, given as such
        lb = [float(draw(st.integers(-9, 9))) for _ in range(d)]
        ub = [a + draw(st.integers(1, 12)) for a in lb]
        return {"kind": kind, "lb": lb, "ub": [a + 0.25 for a in ub] if kind == "mixed" else ub}
    if kind == "int8":  # differences beyond the range of the type
        lb = [float(draw(st.integers(-128, 60))) for _ in range(d)]
        return {"kind": kind, "lb": lb, "ub": [float(draw(st.integers(int(a) + 1, 127))) for a in lb]}
    if kind == "unit":  # axes in very different units
        sc = [10.0 ** draw(st.integers(-9, 9)) for _ in range(d)]
        lb = [draw(FLO) for _ in range(d)]
        return {"kind": kind, "lb": [a * c for a, c in zip(lb, sc)], "ub": [(a + draw(WID)) * c for a, c in zip(lb, sc)]}
    if kind == "similar":  # sides (or bounds) that differ little
        lo, w = draw(FLO), draw(WID)
        e = [10.0 ** draw(st.integers(-7, -1)) * draw(st.integers(-3, 3)) for _ in range(d)]
        if draw(st.booleans()):
            return {"kind": kind, "lb": [lo] * d, "ub": [lo + w * (1 + q) for q in e]}
        return {"kind": kind, "lb": [lo + w * q for q in e], "ub": [lo + w] * d}
    if kind == "lb":
        return {"kind": kind, "lb": [-1.0 - abs(draw(FLO)) for _ in range(d)], "ub": [1.0] * d}
    if kind == "ub":
        return {"kind": kind, "lb": [-1.0] * d, "ub": [0.5 + abs(draw(FLO)) for _ in range(d)]}
    lb = [draw(FLO) for _ in range(d)]
    return {"kind": kind, "lb": lb, "ub": [a + draw(WID) for a in lb]}


@st.composite
def gridspec(draw, maxpts=320, dmax=6, bigpts=520, bigrate=60):
    d = draw(st.sampled_from([q for q in [2, 2, 2, 3, 3, 4, 5, 6, 7, 8] if q <= dmax]))
    if draw(st.sampled_from(range(bigrate))) == 3:  # as many points as affordable
        maxpts = bigpts
        mu = max(m for m in range(1, 10) if ref2.npoints(d, m) <= maxpts)
        return {"d": d, "mu": mu, "b": draw(bounds(d)), "mulist": False}
    return {"d": d, "mu": draw(level(d, maxpts)), "b": draw(bounds(d)), "mulist": draw(st.booleans())}


def make(ctx, spec):
    from interpolation.smolyak import SmolyakGrid

    d, mu, b = spec["d"], spec["mu"], spec["b"]
    if not isinstance(mu, int):
        mu = list(mu) if spec["mulist"] else np.array(mu)
    elif spec["mulist"]:
        mu = np.int64(mu)
    k = b["kind"]
    kw = {}
    if k == "scalar":
        kw = dict(lb=b["lb"][0], ub=b["ub"][0])
    elif k == "int":
        kw = dict(lb=int(b["lb"][0]), ub=int(b["ub"][0]))
    elif k == "npint":
        kw = dict(lb=np.int64(b["lb"][0]), ub=np.int32(b["ub"][0]))
    elif k == "int8":
        kw = dict(lb=np.array(b["lb"], dtype="i1"), ub=np.array(b["ub"], dtype="i1"))
    elif k == "tuple":
        kw = dict(lb=tuple(b["lb"]), ub=tuple(b["ub"]))
    elif k == "list":
        kw = dict(lb=list(b["lb"]), ub=list(b["ub"]))
    elif k == "array":
        kw = dict(lb=np.array(b["lb"]), ub=np.array(b["ub"]))
    elif k == "ints":
        kw = dict(lb=[int(v) for v in b["lb"]], ub=[int(v) for v in b["ub"]])
    elif k == "intarray":
        kw = dict(lb=np.array(b["lb"], dtype="i8"), ub=np.array(b["ub"], dtype="i8"))
    elif k == "mixed":
        kw = dict(lb=np.array(b["lb"], dtype="i8"), ub=list(b["ub"]))
    elif k in ("unit", "similar"):
        kw = dict(lb=np.array(b["lb"]), ub=list(b["ub"]))
    elif k == "lb":
        kw = dict(lb=list(b["lb"]))
    elif k == "ub":
        kw = dict(ub=np.array(b["ub"]))
    return ctx.call("SmolyakGrid(%d, %s, %s)" % (d, spec["mu"], kw), SmolyakGrid, d, mu, **kw)


def to_dom(spec, X):
    lb, ub = np.array(spec["b"]["lb"]), np.array(spec["b"]["ub"])
    return lb + (ub - lb) * (X + 1) / 2


def to_cube(spec, X):
    lb, ub = np.array(spec["b"]["lb"]), np.array(spec["b"]["ub"])
    return (2 * X - lb - ub) / (ub - lb)


def width(spec):
    return np.array(spec["b"]["ub"]) - np.array(spec["b"]["lb"])


def dom_tol(spec):
    return 1e-12 * (np.abs(spec["b"]["lb"]) + np.abs(spec["b"]["ub"]))


def labels(ctx, spec):
    mu = spec["mu"]
    ctx.label("d=%d" % spec["d"], "isotropic mu=%d" % mu if isinstance(mu, int) else "anisotropic", "bounds " + spec["b"]["kind"])


def match_rows(what, got, exp, tol):
    """got contains every row of exp exactly once, in any order; -> permutation p with got[p[i]] == exp[i]"""
    got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    require(got.shape == exp.shape, lambda: "%s: %d points, expected %d" % (what, len(got), len(exp)))
    g = np.round(got, 9) + 0.0
    e = np.round(exp, 9) + 0.0
    og, oe = np.lexsort(g.T[::-1]), np.lexsort(e.T[::-1])
    bad = np.abs(got[og] - exp[oe]).max(axis=1) > tol
    require(not bad.any(), lambda: "%s: expected a point %s (sorted place %d), found %s" % (
        what, exp[oe][bad][0].tolist(), int(np.argmax(bad)), got[og][bad][0].tolist()))
    p = np.empty(len(exp), dtype=int)
    p[oe] = og
    return p
