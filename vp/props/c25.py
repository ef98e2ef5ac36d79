from hypothesis import strategies as st
import numpy as np

from .. import ref2
from ..core import Unit, require

RULE = ("cases: degree, increasing knots, index, point (between knots, on knots, outside); compared with the divided difference definition in exact rational "
        "arithmetic; non-trivial: degree at least 1 and the point inside the support")
ASSUMPTIONS = ["distinct knots", "rounding 1e-9 relative to 1 (knot gaps vary by at most 1e3)"]


@st.composite
def cases(draw):
    p = draw(st.integers(0, 6))
    n = draw(st.integers(p + 2, p + 9))
    a = draw(st.sampled_from([0.0, -5.0, 0.1, 100.0, -3.7]))
    gaps = draw(st.one_of(st.lists(st.sampled_from([1.0, 0.5, 2.0, 0.1, 7.0, 0.01]), min_size=n - 1, max_size=n - 1), st.just([1.0] * (n - 1))))
    u = [a]
    for g in gaps:
        u.append(u[-1] + g)
    i = draw(st.integers(0, n - p - 2))
    where = draw(st.sampled_from(["in", "in", "knot", "out", "edge"]))
    k = draw(st.integers(i, i + p))
    f = draw(st.floats(0.001, 0.999))
    x = {"in": u[k] + f * (u[k + 1] - u[k]), "knot": u[draw(st.integers(0, n - 1))], "out": draw(st.sampled_from([u[0] - 1.5, u[-1] + 2.5, u[-1] + 1e6, u[0] - 1e-3])),
         "edge": draw(st.sampled_from([u[i], u[i + p + 1]]))}[where]
    c = draw(st.sampled_from([1.0, 1.0, 1.0, 2.0**-70, 2.0**-30, 2.0**40]))  # other units of measurement
    return {"p": p, "u": [v * c for v in u], "i": i, "x": x * c, "arr": draw(st.booleans())}


def check(case, ctx):
    from interpolation.splines.basis_splines import B

    p, i, x = case["p"], case["i"], case["x"]
    u = np.array(case["u"]) if case["arr"] else list(case["u"])
    uu = case["u"]
    n = len(uu)
    got = float(ctx.call("B", B, p, u, i, x))
    exp = ref2.bspline(p, uu, i, x)
    # p = 0: exact; others: errors of the recursion
    tol = 0.0 if p == 0 else 1e-9
    inside = uu[i] <= x < uu[i + p + 1]
    require(abs(got - float(exp)) <= tol, lambda: "B(%d, %s, %d, %r) = %r, expected %r" % (p, uu, i, x, got, float(exp)))
    if not inside:
        require(got == 0.0, lambda: "B(%d, %s, %d, %r) = %r outside its support" % (p, uu, i, x, got))
    require(got >= -1e-12, lambda: "B(%d, %s, %d, %r) = %r is negative" % (p, uu, i, x, got))
    if uu[p] <= x < uu[n - 1 - p]:
        tot = sum(float(ctx.call("B", B, p, u, j, x)) for j in range(n - p - 1))
        require(abs(tot - 1) <= 1e-9, lambda: "the basis functions of degree %d on %s sum to %r at %r" % (p, uu, tot, x))
        ctx.label("partition of unity")
    ctx.label("degree %d" % p, "inside support" if inside else "outside support", *(["on a knot"] if x in uu else []))
    ctx.nontrivial(p >= 1 and inside)


def units(tier, seed):
    return [Unit("basis%d" % k, cases, check, quick=700, thorough=20000, cost=1) for k in range(4)]
