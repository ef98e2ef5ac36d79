from hypothesis import strategies as st
import numpy as np

from .. import ref2
from ..core import Unit, require

RULE = ("cases: a CompletePolynomial (or two) and a sequence of fits (exact polynomials or noisy data, scalar or vector-valued, with or without damping), "
        "evaluations and derivatives; a model keeps the least squares coefficients on the monomials; non-trivial: an evaluation or derivative after at least one fit "
        "of degree 1 or more that is not constant")
ASSUMPTIONS = ["designs have at least as many observations as coefficients and condition number below 1e10 (1e6 in natural units); the tolerance is the error "
               "bound of a backward stable solver (1e-12) along each singular direction", "damping is only used once coefficients exist (the first damped fit has no previous coefficients)"]


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4]))
    d = draw(st.sampled_from([0, 1, 2, 3, 4, 5] if n < 3 else [1, 2, 3] if n == 3 else [1, 2]))
    m = draw(st.sampled_from([None, None, 1, 2, 3]))
    seed = st.integers(0, 99999)
    which = st.integers(0, 1)
    damp = st.one_of(st.just(0.0), st.sampled_from([0.5, 0.1, 0.9, 1.0, 0.25]), st.floats(0.0, 1.0))
    op = st.one_of(
        st.tuples(st.just("fit"), which, seed, st.sampled_from(["poly", "noisy", "noisy"]), damp, st.booleans()),
        st.tuples(st.just("fit"), which, seed, st.sampled_from(["poly", "noisy"]), damp, st.booleans()),
        st.tuples(st.just("eval"), which, seed, st.one_of(st.integers(1, 8), st.integers(1, 8), st.sampled_from([70, 300, 1100]))),
        st.tuples(st.just("der"), which, seed, st.integers(0, n - 1)),
        st.tuples(st.just("one"), which, seed),
    )
    ops = [["fit", 0, draw(seed), draw(st.sampled_from(["poly", "noisy"])), 0.0, draw(st.booleans())]] + [
        list(o) for o in draw(st.lists(op, min_size=1, max_size=9))]
    return {"n": n, "d": d, "m": m, "ops": ops,
            "unit": draw(st.sampled_from([0, 0, 0, 3, -3, 9, -9, -15])),
            "scale": draw(st.one_of(st.sampled_from([1.0, 2.0, 0.5]).map(lambda v: [v] * n), st.lists(
                st.sampled_from([1.0, 0.5, 2.0, 1e-3, 1e-2, 0.1, 100.0, 1e3]), min_size=n, max_size=n)))}


def layout(A, how):
    """the same numbers in another memory layout: Fortran order, every other row, reversed"""
    if how == 0:
        return np.asfortranarray(A)
    if how == 1:
        B = np.full((2 * A.shape[0],) + A.shape[1:], np.nan)
        B[::2] = A
        return B[::2]
    return A[::-1].copy()[::-1]


def check(case, ctx):
    from interpolation.complete_poly import CompletePolynomial

    n, d, m, sc = case["n"], case["d"], case["m"], np.array(case["scale"])
    unit = 10.0 ** case["unit"]
    exps = sorted(ref2.monomials(n, d))
    K = len(exps)
    objs = [ctx.call("CompletePolynomial", CompletePolynomial, n, d) for _ in range(2)]
    model = [None, None]  # coefficients (K[, m]) on exps
    err = [[], []]  # errors of the fits: (factor, directions, error along each)
    hist = [0, 0]

    cscale = np.array([np.prod(sc ** -np.array(e, dtype=float)) for e in exps])

    def basis(S):
        return np.stack([ref2.mono(e, S.T.astype(ref2.LD)) for e in exps], axis=-1)

    bufs = {}

    def same(arr, what):
        """the array object used before for data of this shape, filled anew"""
        b = bufs.setdefault((what, arr.shape), np.empty_like(arr))
        b[...] = arr
        return b

    nt = False
    for step, op in enumerate(case["ops"]):
        kind, i, s = op[0], op[1], op[2]
        r = np.random.RandomState(s)
        what = "CompletePolynomial(%d, %d) step %d %s" % (n, d, step, kind)
        tail = () if m is None else (m,)
        if kind == "fit":
            how, damp, wide = op[3], op[4], op[5]
            if model[i] is None:
                damp = 0.0
            N = K + (r.randint(0, 4) if not wide else 2 * K + 3 if s % 5 else r.choice([5 * K + 1, 12 * K + 150, 40 * K + 1100]))
            if N > 5 * K:
                ctx.label("many more observations than coefficients")
            S = r.uniform(-1, 1, (N, n)) * sc
            Phi = basis(S).astype(float)
            U, sv, Vt = np.linalg.svd(Phi, full_matrices=False)
            cond = sv[0] / sv[-1] if sv[-1] > 0 else np.inf
            u2, s2, v2 = np.linalg.svd(Phi * cscale, full_matrices=False)  # the same design in natural units
            if cond > 1e10 or s2[0] > 1e6 * s2[-1]:
                continue
            col = (slice(None),) + (None,) * len(tail)
            if how == "poly":
                c = np.round(r.uniform(-3, 3, (K,) + tail), 3) * cscale[col] * unit
                X = Phi @ c
            else:
                X = r.standard_normal((N,) + tail) * unit
                c = (v2.T @ ((u2.T @ X) / s2[col])) * cscale[col]
            if s % 2:
                S, X = same(S, "S"), same(X, "X")
                ctx.label("same arrays, new data")
            lay = (s // 2) % 6
            if lay < 3:
                S = layout(S, lay)
                X = layout(X, (s // 12) % 3)
                ctx.label("other memory layout")
            S0, X0 = S.copy(), X.copy()
            if damp == 0.0 and r.randint(0, 2):
                ctx.call(what, objs[i].fit_values, S, X)
            else:
                ctx.call(what, objs[i].fit_values, S, X, damp)
            require(np.array_equal(S, S0) and np.array_equal(X, X0), what + " modified the data")
            cm, xm, rm = ([np.sqrt((np.abs(q.reshape(len(q), -1)) ** 2).sum(axis=0)).max()] for q in (c, X, X - Phi @ c))
            e1 = 1e-12 * ((sv[0] * cm[0] + xm[0]) / sv + sv[0] * rm[0] / sv**2)
            e1 = e1 + 1e-12 * np.abs(Vt) @ np.abs(c.reshape(K, -1)).max(axis=1)
            if damp == 0.0:
                model[i], err[i] = c, [(1.0, Vt, e1)]
            else:
                model[i], err[i] = (1 - damp) * c + damp * model[i], [(1 - damp, Vt, e1)] + [(damp * w, V, e) for w, V, e in err[i]]
                ctx.label("damped fit")
            hist[i] += 1
            if hist[i] > 1:
                ctx.label("refitted")
            require(hasattr(objs[i], "coefs") and np.shape(objs[i].coefs) == (K,) + tail, lambda: "%s: coefs has shape %s" % (what, np.shape(objs[i].coefs)))
            ctx.label("fit " + how)
            continue
        if model[i] is None:
            continue
        if kind == "one":
            S = r.uniform(-1.3, 1.3, (1, n)) * sc
            got = ctx.call(what, objs[i], S[0].copy())
            require(np.shape(got) == tail, lambda: "%s returned shape %s" % (what, np.shape(got)))
            got = np.asarray(got).reshape((1,) + tail)
            E = basis(S)
        elif kind == "eval":
            S = same(r.uniform(-1.3, 1.3, (op[3], n)) * sc, "Q")
            if s % 4 == 1:
                S = layout(S, (s // 4) % 3)
            got = ctx.call(what, objs[i], S)
            E = basis(S)
        else:
            S = same(r.uniform(-1.3, 1.3, (r.choice([1, 2, 3, 4, 5, m or n, n, 70]), n)) * sc, "Q")
            if s % 4 == 1:
                S = layout(S, (s // 4) % 3)
            got = ctx.call(what, objs[i].der, S, op[3])
            E = np.stack([ref2.dmono(e, S.T.astype(ref2.LD), op[3]) for e in exps], axis=-1)
        E = E.astype(float)
        exp = E @ model[i]
        require(np.shape(got) == exp.shape, lambda: "%s returned shape %s, expected %s" % (what, np.shape(got), exp.shape))
        tol = (sum(w * (np.abs(E @ V.T) @ e) for w, V, e in err[i]) + 1e-12 * (np.abs(E) @ np.abs(model[i]).reshape(K, -1)).max(axis=1)).reshape((-1,) + (1,) * len(tail))
        bad = ~(np.abs(got - exp) <= tol)
        require(not bad.any(), lambda: "%s at %s: got %r, expected %r (tol %.2g)" % (
            what, S[np.argwhere(bad)[0][0]].tolist(), float(got[bad][0]), float(exp[bad][0]), float(tol.ravel()[np.argwhere(bad)[0][0]])))
        ctx.label("observed " + kind)
        if d >= 1 and np.ptp(model[i]) > 0 and tol.max() < 1e-3 * np.abs(exp).max():
            nt = True
    ctx.label("degree %d" % d, "%d variables" % n, "vector-valued" if m else "scalar")
    ctx.nontrivial(nt)


def units(tier, seed):
    return [Unit("history%d" % i, cases, check, quick=300, thorough=6000, cost=3) for i in range(6)]
