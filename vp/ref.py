"""Reference models, written from the definitions and independent of the code under test.

Interpolation along one axis is a linear functional of the data along that axis: a
row of weights.  A d-dimensional interpolant contracts the data with one row per axis.
Everything is vectorised over N points.  For each axis we return (lo, hi): two
alternatives that only differ where the derivative of a linear spline jumps (a point
on a kink), where either one-sided derivative is correct.
"""
import functools
import itertools

import numpy as np

EPS = np.finfo(float).eps
LD = np.longdouble


def ax_n(ax):
    return ax["n"] if ax["k"] == "u" else len(ax["x"])


def ax_a(ax):
    return ax["a"] if ax["k"] == "u" else ax["x"][0]


def ax_b(ax):
    return ax["b"] if ax["k"] == "u" else ax["x"][-1]


def ax_nodes(ax):
    return np.linspace(ax["a"], ax["b"], ax["n"]) if ax["k"] == "u" else np.array(ax["x"], dtype=float)


def ax_obj(ax):
    return (float(ax["a"]), float(ax["b"]), int(ax["n"])) if ax["k"] == "u" else np.array(ax["x"], dtype=float)


def grid_obj(axes):
    return tuple(ax_obj(a) for a in axes)


def index_coord(ax, x):
    """cell number, position in the cell (0..1 inside, beyond outside), cell widths; x longdouble."""
    n = ax_n(ax)
    if ax["k"] == "u":
        a, b = LD(ax["a"]), LD(ax["b"])
        u = (x - a) * LD(n - 1) / (b - a)
        i = np.clip(np.floor(np.clip(u, LD(0), LD(n - 1))), 0, n - 2).astype(int)
        lam = u - i
        h = np.full(x.shape, (b - a) / LD(n - 1), dtype=LD)
    else:
        g = np.array(ax["x"], dtype=LD)
        i = np.clip(np.searchsorted(g, x, side="right") - 1, 0, n - 2)
        h = g[i + 1] - g[i]
        lam = (x - g[i]) / h
    return i, lam, h


def conditioning(ax, x):
    """How many cell widths away from the origin: bounds the rounding error of x - a."""
    m = np.maximum(np.abs(x), max(abs(ax_a(ax)), abs(ax_b(ax))))
    if ax["k"] == "u":
        h = (ax["b"] - ax["a"]) / (ax["n"] - 1)
    else:  # the cell and its neighbours
        w = np.diff(np.array(ax["x"], dtype=float))
        i = np.clip(np.searchsorted(ax["x"], x, side="right") - 1, 0, len(w) - 1)
        h = np.minimum(np.minimum(w[np.maximum(i - 1, 0)], w[i]), w[np.minimum(i + 1, len(w) - 1)])
    return m / h + ax_n(ax)


def _two(n, i, w0, w1):
    W = np.zeros((len(i), n))
    r = np.arange(len(i))
    W[r, i] += w0.astype(float)
    W[r, i + 1] += w1.astype(float)
    return W


@functools.lru_cache(maxsize=64)
def _natural(n):
    from scipy.interpolate import CubicSpline

    if n == 2:
        return None
    return CubicSpline(np.arange(n), np.eye(n), bc_type="natural")


def _nat_rows(n, i, lam, deriv):
    """rows of the natural spline on nodes 0..n-1 at i + lam, linear outside"""
    if n == 2:
        if deriv == 0:
            return _two(2, i, 1 - lam, lam)
        o = np.ones_like(lam)
        return _two(2, i, -o, o)
    cs = _natural(n)
    u = (i + lam).astype(float)
    uc = np.clip(u, 0, n - 1)
    if deriv == 0:
        W = cs(uc)
        off = (u - uc)[:, None]
        return W + np.where(off != 0, off * cs(uc, 1), 0.0)
    return cs(uc, 1)


def bspl4(t):
    t = np.asarray(t, dtype=float)
    return np.stack([(1 - t) ** 3, 3 * t**3 - 6 * t**2 + 4, -3 * t**3 + 3 * t**2 + 3 * t + 1, t**3], axis=-1) / 6.0


def dbspl4(t):
    t = np.asarray(t, dtype=float)
    return np.stack([-((1 - t) ** 2) * 3, 9 * t**2 - 12 * t, -9 * t**2 + 6 * t + 3, 3 * t**2], axis=-1) / 6.0


def _bsp_rows(n, i, lam, deriv):
    """rows over n+2 cubic B-spline coefficients"""
    lam = lam.astype(float)
    tc = np.clip(lam, 0, 1)
    if deriv == 0:
        w = bspl4(tc) + np.where((lam != tc)[:, None], (lam - tc)[:, None] * dbspl4(tc), 0.0)
    else:
        w = dbspl4(tc)
    W = np.zeros((len(i), n + 2))
    r = np.arange(len(i))
    for j in range(4):
        W[r, i + j] += w[:, j]
    return W


def axis_rows(ax, x, k, deriv=0, mode="linear"):
    """-> (lo, hi) weight matrices (N, n) [(N, n+2) for k='b']"""
    x = np.asarray(x, dtype=float)
    n = ax_n(ax)
    if mode in ("nearest",):
        x = np.clip(x, ax_a(ax), ax_b(ax))
    xl = x.astype(LD)
    i, lam, h = index_coord(ax, xl)
    if k == 1:
        if deriv == 0:
            W = _two(n, i, 1 - lam, lam)
            return W, W
        if deriv >= 2:
            W = np.zeros((len(x), n))
            return W, W
        # one-sided alternatives near interior nodes
        tolu = 1e-9 + 64 * EPS * conditioning(ax, x)
        lamf = lam.astype(float)
        j = np.where((lamf > 1 - tolu) & (i < n - 2), i + 1, np.where((lamf < tolu) & (i > 0), i - 1, i))
        out = []
        for cell in (i, j):
            if ax["k"] == "u":
                hc = h
            else:
                g = np.array(ax["x"], dtype=LD)
                hc = g[cell + 1] - g[cell]
            out.append(_two(n, cell, -1 / hc, 1 / hc))
        return out[0], out[1]
    if deriv >= 2:
        raise ValueError("not defined here")
    W = _nat_rows(n, i, lam, deriv) if k == 3 else _bsp_rows(n, i, lam, deriv)
    if deriv == 1:
        W = W / h.astype(float)[:, None]
    return W, W


def contract(Ws, V):
    """Ws: list of d (N, n_i); V: (n_1..n_d[, m]) -> (N[, m])"""
    N = Ws[0].shape[0]
    n0 = V.shape[0]
    T = (Ws[0] @ V.reshape(n0, -1)).reshape((N,) + V.shape[1:])
    for W in Ws[1:]:
        T = np.einsum("ni,ni...->n...", W, T)
    return T


def outside(axes, pts):
    m = np.zeros(len(pts), dtype=bool)
    for j, ax in enumerate(axes):
        m |= (pts[:, j] < ax_a(ax)) | (pts[:, j] > ax_b(ax))
    return m


class Ref:
    """alternatives: list of arrays (N[, m]); tol: (N[, m])"""

    def __init__(self, alts, tol):
        self.alts, self.tol = alts, tol

    def bad(self, got):
        got = np.asarray(got)
        ok = np.zeros(got.shape, dtype=bool)
        with np.errstate(all="ignore"):
            for a in self.alts:
                ok |= np.abs(got - a) <= self.tol
        return ~ok


def interpolant(axes, V, pts, k=1, orders=None, mode="linear", rtol=1e-10):
    """reference values at pts (N, d) of the interpolant of V (or of B-spline
    coefficients V for k='b'), or of its partial derivative `orders`."""
    pts = np.asarray(pts, dtype=float).reshape(-1, len(axes))
    V = np.asarray(V, dtype=float)
    d = len(axes)
    orders = orders or (0,) * d
    rows = [axis_rows(ax, pts[:, j], k, orders[j], mode) for j, ax in enumerate(axes)]
    cond = np.zeros(len(pts))
    for j, ax in enumerate(axes):
        x = pts[:, j]
        if mode in ("nearest", "constant"):
            x = np.clip(x, ax_a(ax), ax_b(ax))
        # relative to the weights (which grow with the distance to the grid)
        i, lam, h = index_coord(ax, x.astype(LD))
        cond = cond + conditioning(ax, x) / (1.0 + np.abs(lam).astype(float))
    choices = []
    for lo, hi in rows:
        choices.append([lo] if np.array_equal(lo, hi) else [lo, hi])
    alts = [contract(list(c), V) for c in itertools.product(*choices)]
    S = sum(contract([np.abs(w) + (0 if o == 0 else 0) for w, o in zip(c, orders)], np.abs(V))
            for c in itertools.product(*choices))
    if k in (3, "b"):
        # rounding of t enters through all four basis weights
        S = S + 0.0
    shp = (len(pts),) + (1,) * (S.ndim - 1)
    tol = S * (rtol + 64 * EPS * cond.reshape(shp)) + 1e-290
    if k in (3, "b"):
        # neighbouring weights can vanish at nodes: bound the error by the local data too
        loc = _local_scale(axes, V, pts, k, orders, mode)
        tol = tol + (rtol + 64 * EPS * cond.reshape(shp)) * loc
    else:
        loc = _local_scale(axes, V, pts, k, orders, mode)
        tol = tol + (16 * EPS * cond.reshape(shp)) * loc
    if mode == "constant":
        out = outside(axes, pts)
        alts = [np.where(out.reshape(shp), 0.0, a) for a in alts]
        tol = np.where(out.reshape(shp), 0.0, tol)
    return Ref(alts, tol)


def _local_scale(axes, V, pts, k, orders, mode):
    """sum of |data| near the point times the size of the (derivative) weights"""
    Ws = []
    for j, ax in enumerate(axes):
        x = pts[:, j]
        if mode in ("nearest", "constant"):
            x = np.clip(x, ax_a(ax), ax_b(ax))
        i, lam, h = index_coord(ax, x.astype(LD))
        n = ax_n(ax)
        m = n + 2 if k == "b" else n
        W = np.zeros((len(x), m))
        r = np.arange(len(x))
        grow = 1.0 + np.abs(lam).astype(float)
        if orders[j] >= 1:
            if ax["k"] == "u":
                hmin = h.astype(float)
            else:
                hmin = np.full(len(x), np.min(np.diff(np.array(ax["x"], dtype=float))))
            grow = 1.0 / hmin
        if k == 1:
            for o in (-1, 0, 1, 2):
                jj = np.clip(i + o, 0, m - 1)
                W[r, jj] = grow
        elif k == "b":
            for o in (0, 1, 2, 3):
                W[r, i + o] = grow
            # on the boundary of two cells the rounded coordinate may fall into the other one
            lf = lam.astype(float)
            eps = 1e-9 + 64 * EPS * conditioning(ax, x)
            lo, hi = (np.abs(lf) < eps) & (i > 0), (np.abs(lf - 1) < eps) & (i < n - 2)
            W[r[lo], i[lo] - 1] = grow[lo] if np.ndim(grow) else grow
            W[r[hi], i[hi] + 4] = grow[hi] if np.ndim(grow) else grow
        else:
            # natural spline rows decay geometrically
            W[:] = grow[:, None] * 0.27 ** np.abs(np.arange(n)[None, :] - (i + 0.5)[:, None])
            W *= 4
        Ws.append(W)
    return contract(Ws, np.abs(V))


# ---------------------------------------------------------------- filtering


def filt_matrix(n):
    M = np.zeros((n + 2, n + 2))
    M[0, :3] = (1, -2, 1)
    M[-1, -3:] = (1, -2, 1)
    for i in range(n):
        M[i + 1, i : i + 3] = (1 / 6, 4 / 6, 1 / 6)
    return M


@functools.lru_cache(maxsize=64)
def _filt_op(n):
    """(n+2, n): coefficients from values"""
    return np.linalg.solve(filt_matrix(n), np.vstack([np.zeros((1, n)), np.eye(n), np.zeros((1, n))]))


def filter_ref(V, d):
    """cubic coefficients of values V (n1..nd[, m])"""
    C = np.asarray(V, dtype=float)
    for j in range(d):
        n = C.shape[j]
        C = np.moveaxis(np.tensordot(_filt_op(n), C, (1, j)), 0, j)
    return C


def filter_scale(V, d):
    C = np.abs(np.asarray(V, dtype=float))
    for j in range(d):
        n = C.shape[j]
        C = np.moveaxis(np.tensordot(np.abs(_filt_op(n)) + 0.0, C, (1, j)), 0, j)
    return C + 1e-3 * np.max(np.abs(V), initial=0.0)


def enum_nodes(axes_nodes, order="C"):
    return np.array(list(itertools.product(*axes_nodes)) if order == "C" else
                    [t[::-1] for t in itertools.product(*axes_nodes[::-1])], dtype=float).reshape(-1, len(axes_nodes))
