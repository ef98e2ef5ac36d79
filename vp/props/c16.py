from math import comb

from hypothesis import strategies as st
import numpy as np

from .. import ref2
from ..core import Unit, require

RULE = ("cases: number of variables, degree, differentiated variable, observations; the basis is first evaluated at distinct primes, where unique "
        "factorisation identifies every monomial exactly, then compared with the reference monomials (and their derivatives in the same rows) at the "
        "generated observations; non-trivial: degree at least 2 and at least 2 variables")
ASSUMPTIONS = ["relative rounding 1e-13 per entry", "the order of the monomials after the constant and the variables is not prescribed, "
               "only that it is the same for all observations and for derivatives"]

VALS = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5, -3.0]), st.floats(-10, 10, allow_nan=False), st.floats(-1e3, 1e3, allow_nan=False))


@st.composite
def cases(draw):
    nvar = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6, 8]))
    d = draw(st.sampled_from([2, 3, 4, 5, 5, 4, 3, 2, 1, 0] if nvar < 7 else [2, 3, 1, 0]))
    nobs = draw(st.sampled_from([1, 2, 3, 5]))
    small = draw(st.booleans())
    if small:
        Z = draw(st.lists(st.lists(VALS, min_size=nobs, max_size=nobs), min_size=nvar, max_size=nvar))
    else:
        nobs = draw(st.one_of(st.integers(1, 40), st.integers(1, 40), st.sampled_from([70, 130, 300, 1100, 2100])))
        Z = {"s": draw(st.integers(0, 99999)), "nobs": nobs}
        if nobs > 40 and nvar > 4:
            d = min(d, 3)
    return {"nvar": nvar, "d": d, "Z": Z, "der": draw(st.integers(0, nvar - 1)),
            "how": draw(st.sampled_from(["array", "F", "list", "strided", "T", "int"]))}


def close(got, exp):
    exp = np.asarray(exp, dtype=float)
    return np.abs(got - exp) <= 1e-13 * np.abs(exp) + 1e-300


def order_of(ctx, nvar, d):
    """exponents of each row, from the primes"""
    from interpolation.complete_poly import complete_polynomial

    z = np.array(ref2.PRIMES[:nvar], dtype=float)
    rows = ctx.call("complete_polynomial", complete_polynomial, z, d)
    exps = [ref2.identify(v, nvar) for v in rows]
    want = ref2.monomials(nvar, d)
    require(len(rows) == len(want), lambda: "complete_polynomial(%d variables, degree %d) has %d rows, expected %d" % (nvar, d, len(rows), len(want)))
    require(set(exps) == want and len(set(exps)) == len(exps), lambda: "complete_polynomial(%d variables, degree %d): monomials missing %s, foreign or repeated %s" % (
        nvar, d, sorted(want - set(exps))[:3], [r for r, e in zip(rows, exps) if e is None or exps.count(e) > 1][:3]))
    first = [tuple([0] * nvar)] + ([tuple(int(i == j) for i in range(nvar)) for j in range(nvar)] if d >= 1 else [])
    require(exps[: len(first)] == first, lambda: "rows do not start with the constant and the variables: %s" % exps[: len(first)])
    return exps


def present(Z, how):
    if how == "F":
        return np.asfortranarray(Z)
    if how == "list":
        return Z.tolist()
    if how == "strided":
        b = np.full((Z.shape[0], 2 * Z.shape[1]), np.nan)
        b[:, ::2] = Z
        return b[:, ::2]
    if how == "T":
        return np.ascontiguousarray(Z.T).T
    return Z


def check(case, ctx):
    from interpolation.complete_poly import complete_polynomial, complete_polynomial_der, n_complete

    nvar, d, der, how = case["nvar"], case["d"], case["der"], case["how"]
    Z = case["Z"]
    if isinstance(Z, dict):
        Z = np.round(np.random.RandomState(Z["s"]).uniform(-3, 3, (nvar, Z["nobs"])), 4)
    Z = np.array(Z, dtype=float)
    if how == "int":
        Z = np.round(np.clip(Z, -30, 30))
    exps = order_of(ctx, nvar, d)
    n = ctx.call("n_complete", n_complete, nvar, d)
    require(n == len(exps), lambda: "n_complete(%d, %d) = %s, the basis has %d rows" % (nvar, d, n, len(exps)))
    arg = present(Z, how) if how != "int" else Z.astype(np.int64)
    nobs = Z.shape[1]
    Zl = Z.astype(ref2.LD)
    E = np.array([ref2.mono(e, Zl) for e in exps], dtype=float)
    DE = np.array([ref2.dmono(e, Zl, der) for e in exps], dtype=float)
    keep = Z.copy()
    for nm, f, X in (("complete_polynomial", lambda z: complete_polynomial(z, d), E),
                     ("complete_polynomial_der", lambda z: complete_polynomial_der(z, d, der), DE)):
        what = "%s(%d variables, degree %d%s)" % (nm, nvar, d, ", variable %d" % der if "der" in nm else "")
        got = ctx.call(what, f, arg)
        require(isinstance(got, np.ndarray) and got.shape == X.shape, lambda: "%s has shape %s, expected %s" % (what, np.shape(got), X.shape))
        bad = ~close(got, X)
        require(not bad.any(), lambda: "%s row %d (monomial %s) at %s: %r, expected %r" % (
            what, np.argwhere(bad)[0][0], exps[np.argwhere(bad)[0][0]], Z[:, np.argwhere(bad)[0][1]].tolist(), float(got[bad][0]), float(X[bad][0])))
        for k in {0, nobs - 1}:
            v = np.ascontiguousarray(Z[:, k]) if how != "int" else Z[:, k].astype(np.int64)
            if how == "list":
                v = v.tolist()
            elif how in ("F", "strided"):
                v = Z[:, k]
            one = ctx.call(what + " of a vector", f, v)
            require(one.shape == (len(exps),), lambda: "%s of a vector has shape %s" % (what, one.shape))
            b1 = ~close(one, X[:, k])
            require(not b1.any(), lambda: "%s of a vector, row %d (monomial %s) at %s: %r, expected %r" % (
                what, np.argwhere(b1)[0][0], exps[np.argwhere(b1)[0][0]], Z[:, k].tolist(), float(one[b1][0]), float(X[:, k][b1][0])))
    require(np.array_equal(Z, keep), "the observations were modified")
    ctx.label("degree %d" % d, "%d variables" % nvar, "observations as " + how)
    if nobs > 40:
        ctx.label("many observations")
    if (Z == 0).any():
        ctx.label("an observation is zero")
    ctx.nontrivial(d >= 2 and nvar >= 2)


@st.composite
def bad(draw):
    nvar = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(["degree high", "degree low", "variable high", "variable low"]))
    return {"nvar": nvar, "kind": kind, "x": draw(st.integers(0, 4)), "vec": draw(st.booleans()), "d": draw(st.integers(0, 5)), "f": draw(st.integers(0, 1))}


def check_bad(case, ctx):
    from interpolation.complete_poly import complete_polynomial, complete_polynomial_der

    z = np.linspace(0.5, 2, case["nvar"])
    if not case["vec"]:
        z = np.stack([z, z + 1, z + 2], axis=1)
    k, x, d = case["kind"], case["x"], case["d"]
    if k.startswith("degree"):
        dd = 6 + x if k.endswith("high") else -1 - x
        if case["f"]:
            ctx.rejects("complete_polynomial of degree %d" % dd, complete_polynomial, z, dd)
        else:
            ctx.rejects("complete_polynomial_der of degree %d" % dd, complete_polynomial_der, z, dd, 0)
    else:
        v = case["nvar"] + x if k.endswith("high") else -1 - x
        ctx.rejects("derivative with respect to variable %d of %d" % (v, case["nvar"]), complete_polynomial_der, z, d, v)
    ctx.label("rejected: " + k)
    ctx.nontrivial()


@st.composite
def counts(draw):
    d = draw(st.one_of(st.integers(0, 5), st.integers(0, 12)))
    return [draw(st.one_of(st.integers(1, 30), st.integers(1, min(2000, int(9e18 ** (1 / max(d, 1))) - d)))), d]


def check_n(case, ctx):
    from interpolation.complete_poly import n_complete

    n, d = case
    got = ctx.call("n_complete", n_complete, n, d)
    require(got == comb(n + d, d), lambda: "n_complete(%d, %d) = %s, expected %d" % (n, d, got, comb(n + d, d)))
    ctx.nontrivial(n > 1 and d > 1)


def units(tier, seed):
    return [
        Unit("basis", cases, check, quick=900, thorough=20000, cost=8),
        Unit("basis2", cases, check, quick=900, thorough=20000, cost=8),
        Unit("rejections", bad, check_bad, quick=250, cost=2),
        Unit("count", counts, check_n, quick=300, cost=1),
    ]
