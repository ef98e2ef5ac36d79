"""Reference models of complete polynomials, Smolyak grids, Hermite interpolation and
B-spline bases, written from the definitions."""
import functools
import itertools
from fractions import Fraction
from math import comb

import numpy as np

EPS = np.finfo(float).eps
LD = np.longdouble

# ------------------------------------------------------------ complete polynomials


@functools.lru_cache(maxsize=None)
def monomials(nvar, d):
    """set of exponent tuples of total degree <= d"""
    out = set()
    for deg in range(d + 1):
        for c in itertools.combinations_with_replacement(range(nvar), deg):
            e = [0] * nvar
            for i in c:
                e[i] += 1
            out.add(tuple(e))
    assert len(out) == comb(nvar + d, d)
    return frozenset(out)


def mono(e, Z):
    """monomial with exponents e at Z (nvar, ...)"""
    r = np.ones(Z.shape[1:], dtype=LD)
    for j, p in enumerate(e):
        for _ in range(p):
            r = r * Z[j]
    return r


def dmono(e, Z, i):
    if e[i] == 0:
        return np.zeros(Z.shape[1:], dtype=LD)
    f = list(e)
    f[i] -= 1
    return e[i] * mono(f, Z)


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29]


def identify(row, nvar):
    """exponents of a monomial from its value at the first primes (exact), or None"""
    v = float(row)
    if v != int(v) or v <= 0:
        return None
    v = int(v)
    e = []
    for p in PRIMES[:nvar]:
        k = 0
        while v % p == 0:
            v //= p
            k += 1
        e.append(k)
    return tuple(e) if v == 1 else None


# ------------------------------------------------------------ smolyak


def extrema(n):
    """S_n"""
    if n == 1:
        return np.array([0.0])
    m = 2 ** (n - 1) + 1
    j = np.arange(m)
    v = np.array([-np.cos(np.pi * LD(q) / (m - 1)) for q in j], dtype=float)
    v[m // 2] = 0.0
    return v


def increments(n):
    """A_n = S_n minus S_{n-1}"""
    if n == 1:
        return np.array([0.0])
    if n == 2:
        return np.array([-1.0, 1.0])
    return extrema(n)[1::2]


def sizes(n):
    return 1 if n == 1 else 2 ** (n - 1) + 1


def numbers(n):
    """polynomial numbers (1-based) that belong to level n"""
    if n == 1:
        return [1]
    lo = sizes(n - 1) + 1
    return list(range(lo, sizes(n) + 1))


def levels(d, mu):
    """all level tuples; mu int or list"""
    cap = [mu] * d if isinstance(mu, int) else list(mu)
    top = max(cap)

    def rec(j, left):
        if j == d:
            yield ()
            return
        for l in range(1, min(cap[j], left) + 2):
            for r in rec(j + 1, left - (l - 1)):
                yield (l,) + r

    return list(rec(0, top))


@functools.lru_cache(maxsize=64)
def _sparse(d, mu):
    mu = mu if isinstance(mu, int) else list(mu)
    pts, polys = [], []
    for l in levels(d, mu):
        pts.extend(itertools.product(*[increments(i) for i in l]))
        polys.extend(itertools.product(*[numbers(i) for i in l]))
    return np.array(pts), polys


def sparse(d, mu):
    return _sparse(d, mu if isinstance(mu, int) else tuple(mu))


def npoints(d, mu):
    n = 0
    for l in levels(d, mu):
        k = 1
        for i in l:
            k *= {1: 1, 2: 2}.get(i, 2 ** (i - 2))
        n += k
    return n


def cheb(x, n):
    """T_0..T_n and derivatives at x (any shape), by the recurrences, in long double"""
    x = np.asarray(x, dtype=LD)
    T = [np.ones_like(x), x]
    D = [np.zeros_like(x), np.ones_like(x)]
    for k in range(2, n + 1):
        T.append(2 * x * T[-1] - T[-2])
        D.append(2 * T[k - 1] + 2 * x * D[-1] - D[-2])
    return np.stack(T[: n + 1]), np.stack(D[: n + 1])


def basis(polys, X, wrt=None):
    """(N, npolys): products of T_{p_j - 1}(X_j), one of them differentiated if wrt is given.  Long double."""
    X = np.asarray(X, dtype=float)
    N, d = X.shape
    top = max(max(p) for p in polys)
    T, D = cheb(X.T, top)  # (top+1, d, N)
    P = np.array(polys) - 1
    out = np.ones((N, len(polys)), dtype=LD)
    for j in range(d):
        src = D if j == wrt else T
        out = out * src[P[:, j], j, :].T
    return out


# ------------------------------------------------------------ hermite


def hermite(x, y, m, p):
    """cubic Hermite interpolant (constant outside) at p; -> values, tolerance"""
    x, y, m, p = (np.asarray(v, dtype=LD) for v in (x, y, m, p))
    n = len(x)
    i = np.clip(np.searchsorted(x, p, side="right") - 1, 0, n - 2)
    h = x[i + 1] - x[i]
    t = (p - x[i]) / h
    # Newton form with double nodes
    d0 = m[i]
    s = (y[i + 1] - y[i]) / h
    d1 = (s - d0) / h
    d2 = ((m[i + 1] - s) / h - d1) / h
    u = p - x[i]
    v = y[i] + d0 * u + d1 * u * u + d2 * u * u * (p - x[i + 1])
    v = np.where(p <= x[0], y[0], np.where(p >= x[-1], y[-1], v))
    scale = np.abs(y[i]) + np.abs(y[i + 1]) + h * (np.abs(m[i]) + np.abs(m[i + 1]))
    cond = (np.maximum(abs(x[0]), abs(x[-1])) / h).astype(float)
    tol = scale.astype(float) * (1e-12 + 64 * EPS * cond) + 1e-290
    tol = np.where((p <= x[0]) | (p >= x[-1]), 0.0, tol)
    return v.astype(float), tol


# ------------------------------------------------------------ B-splines


def bspline(p, u, i, x):
    """B_{i,p}(x) on distinct knots by the divided difference definition, exact rationals"""
    u = [Fraction(v) for v in u]
    x = Fraction(x)
    if not (u[i] <= x < u[i + p + 1]):
        return Fraction(0)
    if p == 0:
        return Fraction(1)
    tot = Fraction(0)
    for j in range(i, i + p + 2):
        if u[j] > x:
            den = Fraction(1)
            for k in range(i, i + p + 2):
                if k != j:
                    den *= u[j] - u[k]
            tot += (u[j] - x) ** p / den
    # sum of (u_j - x)_+^p / prod(u_j - u_k) is the divided difference of order p+1
    return (u[i + p + 1] - u[i]) * tot
