import itertools

from hypothesis import strategies as st
import numpy as np

from .. import ref2, smol
from ..core import Unit, require

RULE = ("cases: degrees, levels, lists and points for each building block, compared with the definition (Chebyshev polynomials also through cos(n acos x)); "
        "non-trivial: degree above 2, level above 2, list with a repeated element, or level above 1 for the basis")
ASSUMPTIONS = ["relative rounding 1e-11 of the size of the polynomials"]

XS = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.5, 0.3]), st.floats(-1, 1), st.floats(-2, 2))


@st.composite
def cheb_cases(draw):
    n = draw(st.one_of(st.integers(0, 6), st.integers(0, 33)))
    shape = draw(st.sampled_from([[], [1], [3], [2, 3], [4, 2], [2, 2, 2], [0], [1, 5]]))
    size = int(np.prod(shape))
    return {"n": n, "shape": shape, "x": draw(st.lists(XS, min_size=size, max_size=size)), "kind": draw(st.sampled_from([None, 1.0, 2.0, 2])), "lst": draw(st.booleans())}


def check_cheb(case, ctx):
    from interpolation.smolyak import cheby2n

    n, kind = case["n"], case["kind"]
    x = np.array(case["x"], dtype=float).reshape(case["shape"])
    arg = x.tolist() if case["lst"] else x
    args = () if kind is None else (kind,)
    keep = x.copy()
    got = ctx.call("cheby2n", cheby2n, arg, n, *args)
    require(got.shape == (n + 1,) + x.shape, lambda: "cheby2n(shape %s, %d) has shape %s" % (x.shape, n, got.shape))
    xl = x.astype(ref2.LD)
    prev, cur = np.ones_like(xl), xl * (2 if kind in (2, 2.0) else 1)
    P = [prev, cur]
    for k in range(2, n + 1):
        P.append(2 * xl * P[-1] - P[-2])
    for k in range(n + 1):
        e = P[k].astype(float)
        # errors grow with the degree and like the polynomial outside of [-1, 1]
        sc = 1e-13 * (k + 1) ** 2 * (1 + np.abs(e)) * (1 + k)
        bad = ~(np.abs(got[k] - e) <= sc)
        require(not bad.any(), lambda: "cheby2n kind %s degree %d at %s: %s, expected %s" % (kind, k, x[bad].ravel()[:1], got[k][bad].ravel()[:1], e[bad].ravel()[:1]))
        if kind in (None, 1.0):
            ins = np.abs(x) <= 1
            c = np.cos(k * np.arccos(np.clip(x, -1, 1)))
            require(np.all(np.abs(got[k] - c)[ins] <= 1e-9), lambda: "cheby2n degree %d is not cos(%d acos x)" % (k, k))
    require(np.array_equal(x, keep), "cheby2n modified its argument")
    ctx.label("kind %s" % kind, "shape %s" % (x.shape,), "degree %s" % (n if n < 3 else ">2"))
    ctx.nontrivial(n > 2 and x.size > 0)


@st.composite
def row_cases(draw):
    n = draw(st.integers(1, 20))
    shape = [draw(st.integers(1, 5)), draw(st.integers(1, 5))]
    return {"n": n, "shape": shape, "x": draw(st.lists(XS, min_size=shape[0] * shape[1], max_size=shape[0] * shape[1])), "kind": draw(st.sampled_from([None, 1.0, 2.0]))}


def check_rows(case, ctx):
    from interpolation.smolyak.grid import chebyvalto

    n, kind = case["n"], case["kind"]
    x = np.array(case["x"], dtype=float).reshape(case["shape"])
    keep = x.copy()
    got = ctx.call("chebyvalto", chebyvalto, x, n, *(() if kind is None else (kind,)))
    cols = x.shape[1]
    require(got.shape == (len(x), cols * (n - 1)), lambda: "chebyvalto(shape %s, %d) has shape %s" % (x.shape, n, got.shape))
    xl = x.astype(ref2.LD)
    P = [np.ones_like(xl), xl * (2 if kind == 2.0 else 1)]
    for k in range(1, n):
        P.append(2 * xl * P[-1] - P[-2])
        e, g = P[k].astype(float), got[:, (k - 1) * cols : k * cols]
        bad = ~(np.abs(g - e) <= 1e-13 * (k + 1) ** 3 * (1 + np.abs(e)))
        require(not bad.any(), lambda: "chebyvalto kind %s degree %d at %r: %r, expected %r" % (kind, k, float(x[bad][0]), float(g[bad][0]), float(e[bad][0])))
    require(np.array_equal(x, keep), "chebyvalto modified its argument")
    ctx.label("side by side")
    ctx.nontrivial(n > 2)


def as_set(a):
    return sorted(float(v) for v in a)


def check_sets(case, ctx):
    from interpolation.smolyak import a_chain, m_i, phi_chain, s_n

    n = case
    S = ctx.call("s_n", s_n, n)
    e = ref2.extrema(n)
    require(np.shape(S) == e.shape and np.all(np.abs(np.sort(S) - e) <= 1e-14), lambda: "s_n(%d) = %s" % (n, S))
    require(ctx.call("m_i", m_i, n) == len(e), lambda: "m_i(%d) = %s, the set has %d points" % (n, m_i(n), len(e)))
    A = ctx.call("a_chain", a_chain, n)
    F = ctx.call("phi_chain", phi_chain, n)
    for k in range(1, n + 1):
        a = as_set(A[k])
        ea = as_set(ref2.increments(k))
        require(len(a) == len(ea) and np.all(np.abs(np.array(a) - ea) <= 1e-14), lambda: "a_chain(%d)[%d] = %s, expected %s" % (n, k, a, ea))
        f = [int(v) for v in F[k]]
        require(sorted(f) == ref2.numbers(k), lambda: "phi_chain(%d)[%d] = %s, expected %s" % (n, k, f, ref2.numbers(k)))
        require(len(f) == len(a), "phi_chain and a_chain have different lengths at %d" % k)
    # increments up to n make the set of level n
    union = sorted(v for k in range(1, n + 1) for v in A[k])
    require(len(union) == len(e) and np.all(np.abs(np.array(union) - e) <= 1e-14), lambda: "a_chain(%d) does not add up to s_n(%d)" % (n, n))
    ctx.label("level %d" % n)
    ctx.nontrivial(n > 2)


def check_m(case, ctx):
    from interpolation.smolyak import m_i

    i = case
    if i < 0:
        ctx.rejects("m_i(%d)" % i, m_i, i)
    else:
        e = 0 if i == 0 else ref2.sizes(i)
        require(ctx.call("m_i", m_i, i) == e, lambda: "m_i(%d) = %s, expected %d" % (i, m_i(i), e))
    ctx.nontrivial(i > 2 or i < 0)


def check_num(case, ctx):
    from interpolation.smolyak import num_grid_points

    d, mu = case
    got = ctx.call("num_grid_points", num_grid_points, d, mu)
    e = ref2.npoints(d, mu) if d < 9 else {1: 2 * d + 1, 2: 1 + 4 * d + 2 * d * (d - 1), 3: 1 + 8 * d + 6 * d * (d - 1) + 4 * d * (d - 1) * (d - 2) // 3}[mu]
    require(got == e, lambda: "num_grid_points(%d, %d) = %s, expected %d" % (d, mu, got, e))
    ctx.nontrivial(mu > 1)


def check_permute(case, ctx):
    from interpolation.smolyak import permute

    a = list(case)
    got = ctx.call("permute", lambda: [tuple(v) for v in permute(list(a))])
    e = sorted(set(itertools.permutations(a)))
    require(sorted(got) == e, lambda: "permute(%s) yields %d orderings (%d distinct), expected %d: missing %s" % (
        a, len(got), len(set(got)), len(e), sorted(set(e) - set(got))[:2]))
    # also when the items are consumed late
    late = ctx.call("permute", lambda: list(permute(list(a))))
    require(sorted(tuple(v) for v in late) == e, "permute(%s) yields lists that change afterwards" % a)
    ctx.label("length %d" % len(a), "repeated element" if len(set(a)) < len(a) else "distinct")
    ctx.nontrivial(len(a) > 2 and len(set(a)) < len(a))


@st.composite
def b_cases(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 4, 5]))
    return {"d": d, "mu": draw(smol.level(d, 200)), "N": draw(st.integers(1, 7)), "s": draw(st.integers(0, 99999)), "deriv": draw(st.booleans()),
            "given": draw(st.booleans()), "order": draw(st.integers(0, 99))}


def check_B(case, ctx):
    from interpolation.smolyak import build_B, build_grid, smol_inds
    from interpolation.smolyak.grid import poly_inds

    d, mu = case["d"], case["mu"]
    if not isinstance(mu, int):
        mu = np.array(mu)
    r = np.random.RandomState(case["s"])
    X = r.uniform(-1.2, 1.2, (case["N"], d))
    if case["s"] % 3 == 0:
        X = np.round(X * 2) / 2  # nodes, ends and middle
    pts, polys = ref2.sparse(d, case["mu"])
    what = "build_B(%d, %s, deriv=%s, b_inds %s)" % (d, case["mu"], case["deriv"], "given" if case["given"] else "computed")
    inds = ctx.call("smol_inds", smol_inds, d, mu)
    it = [tuple(int(v) for v in i) for i in inds]
    lev = ref2.levels(d, case["mu"])
    require(sorted(it) == sorted(lev), lambda: "smol_inds(%d, %s): missing %s, extra or repeated %s" % (d, case["mu"], sorted(set(lev) - set(it))[:3], sorted(set(it) - set(lev))[:3]))
    g = ctx.call("build_grid", build_grid, d, mu)
    smol.match_rows("build_grid(%d, %s)" % (d, case["mu"]), g, pts, 1e-12)
    if case["given"]:
        own = list(polys)
        np.random.RandomState(case["order"]).shuffle(own)
        out = ctx.call(what, build_B, d, mu, X, own, case["deriv"]) if case["deriv"] else ctx.call(what, build_B, d, mu, X, own)
    else:
        own = [tuple(int(v) for v in q) for q in ctx.call("poly_inds", poly_inds, d, mu)]
        require(sorted(own) == sorted(polys), lambda: "poly_inds(%d, %s) lists other polynomials" % (d, case["mu"]))
        out = ctx.call(what, build_B, d, mu, X, deriv=case["deriv"])
    B = out[0] if case["deriv"] else out
    e = ref2.basis(own, X).astype(float)
    require(np.shape(B) == e.shape, lambda: "%s: B has shape %s" % (what, np.shape(B)))
    top = max(max(q) for q in own)
    bad = ~(np.abs(B - e) <= 1e-13 * top**3 * (1 + np.abs(e)))
    require(not bad.any(), lambda: "%s: basis %s at %s: %r, expected %r" % (what, own[np.argwhere(bad)[0][1]], X[np.argwhere(bad)[0][0]].tolist(), float(B[bad][0]), float(e[bad][0])))
    if case["deriv"]:
        D = out[1]
        require(np.shape(D) == (len(own), d, len(X)), lambda: "%s: derivatives have shape %s" % (what, np.shape(D)))
        for j in range(d):
            e = ref2.basis(own, X, j).astype(float).T
            bad = ~(np.abs(D[:, j, :] - e) <= 1e-13 * top**4 * (1 + np.abs(e)))
            require(not bad.any(), lambda: "%s: derivative %d of basis %s at %s: %r, expected %r" % (
                what, j, own[np.argwhere(bad)[0][0]], X[np.argwhere(bad)[0][1]].tolist(), float(D[:, j, :][bad][0]), float(e[bad][0])))
        ctx.label("derivatives")
    ctx.label("d=%d" % d, "isotropic" if isinstance(case["mu"], int) else "anisotropic")
    ctx.nontrivial(np.max(mu) > 1)


def units(tier, seed):
    return [
        Unit("cheby2n", cheb_cases, check_cheb, quick=1200, cost=3),
        Unit("chebyvalto", row_cases, check_rows, quick=600, cost=1),
        Unit("sets", lambda: st.integers(1, 10), check_sets, quick=40, cost=1),
        Unit("m_i", lambda: st.integers(-5, 40), check_m, quick=100, cost=1),
        Unit("num_grid_points", lambda: st.tuples(st.integers(1, 30), st.integers(1, 3)).map(list), check_num, quick=150, cost=1),
        Unit("permute", lambda: st.one_of(st.lists(st.integers(1, 3), max_size=6), st.lists(st.integers(-5, 9), max_size=6)), check_permute, quick=600, cost=2),
        Unit("build_B", b_cases, check_B, quick=1500, cost=4),
        Unit("build_B2", b_cases, check_B, quick=1500, cost=4),
    ]
