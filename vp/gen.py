"""Hypothesis strategies: every case is a JSON-able dict; builders turn it into arrays.
Random bulk data come from integer seeds drawn by hypothesis, so a case is a pure value."""
import numpy as np
from hypothesis import strategies as st

from . import ref

BIGN = {1: 60, 2: 14, 3: 8, 4: 6, 5: 4}
LONG = {1: [65, 128, 257, 513, 1025, 1025], 2: [33, 64, 65, 129, 257], 3: [33, 65, 129], 4: [17, 33, 65], 5: [17, 33]}
SCALE = [1e-30, 1e-12, 1e-9, 1e-6, 1e6, 1e9, 1e12, 1e30]
SMALLN = {1: 7, 2: 6, 3: 5, 4: 4, 5: 3}

A0 = [0.0, -1.0, 1.0, 0.5, -3.7, 10.0, -250.0, 1000.0]
WID = [1.0, 2.0, 0.1, 7.3, 3.0, 0.01, 100.0, 1234.5]
GAP = [1.0, 0.5, 0.1, 2.0, 3.3, 0.01, 25.0]


def size(d, lo=2):
    small = st.integers(lo, SMALLN[d])
    return st.one_of(small, small, st.integers(lo, BIGN[d]), st.integers(lo, lo + 1))


@st.composite
def uaxis(draw, d, lo=2, n=None):
    n = draw(size(d, lo)) if n is None else n
    a = draw(st.one_of(st.sampled_from(A0), st.floats(-50, 50).map(lambda v: round(v, 4))))
    w = draw(st.one_of(st.sampled_from(WID), st.floats(0.05, 50).map(lambda v: round(v, 4) + 0.01)))
    return {"k": "u", "a": a, "b": a + w, "n": n}


@st.composite
def naxis(draw, d, lo=2, n=None):
    n = draw(size(d, lo)) if n is None else n
    a = draw(st.one_of(st.sampled_from(A0), st.floats(-50, 50).map(lambda v: round(v, 4))))
    kind = draw(st.sampled_from(["gaps", "gaps", "seed", "even", "cluster"]))
    if kind == "even":
        w = draw(st.sampled_from(WID))
        return {"k": "n", "x": [float(v) for v in np.linspace(a, a + w, n)]}
    if kind == "cluster":  # cells of very different widths
        s = draw(st.integers(0, 9999))
        gaps = 10.0 ** np.random.RandomState(s).uniform(-8, 2, size=n - 1)
    elif kind == "gaps" and n <= 12:
        gaps = draw(st.lists(st.sampled_from(GAP), min_size=n - 1, max_size=n - 1))
    else:
        s = draw(st.integers(0, 9999))
        gaps = np.random.RandomState(s).choice(GAP + [0.37, 1.9], size=n - 1)
    x = [float(a)]
    for g in gaps:
        x.append(float(x[-1] + g))
    return {"k": "n", "x": x}


@st.composite
def axes(draw, types, lo=2, large=True, scales=None):
    """one axis in every ten cases or so is long (table sizes at which an implementation
    might change its method: block sizes, powers of two); one in seven very narrow or wide
    (where absolute tolerances show)"""
    d = len(types)
    long = -1
    if large and draw(st.sampled_from(range(6 if d == 1 else 9))) == 5:
        long = draw(st.integers(0, d - 1))
    out = []
    for j, t in enumerate(types):
        n = draw(st.sampled_from(LONG[d] + ([1025, 2050] if types == "n" else []))) if j == long else None
        if n is None and long >= 0 and d > 1:
            n = draw(st.integers(lo, 4))
        out.append(draw(uaxis(d, lo, n) if t == "u" else naxis(d, lo, n)))
    if draw(st.sampled_from(range(7))) == 3:
        j = draw(st.integers(0, d - 1))
        out[j] = rescaled(out[j], draw(st.sampled_from(scales or SCALE)))
    return out


def rescaled(ax, f):
    """the same axis in other units of measurement"""
    if ax["k"] == "u":
        return dict(ax, a=ax["a"] * f, b=ax["a"] * f + (ax["b"] - ax["a"]) * f)
    return dict(ax, x=[v * f for v in ax["x"]])


# ---------------------------------------------------------------- values


def values():
    return st.one_of(
        st.tuples(st.just("rng"), st.integers(0, 99999), st.sampled_from([0, 0, 0, 0, 0, -3, 3, 6, -12, 12, -40, 40])).map(list),
        st.tuples(st.just("spike"), st.integers(0, 9999), st.just(0)).map(list),
        st.tuples(st.just("int"), st.integers(0, 99999), st.just(0)).map(list),
        st.tuples(st.just("walk"), st.integers(0, 99999), st.just(0)).map(list),
        st.tuples(st.just("near"), st.integers(0, 99999), st.sampled_from([0, -9, 6])).map(list),
    )


def build_values(spec, shape):
    kind, s, e = spec
    r = np.random.RandomState(s % (2**31))
    size_ = int(np.prod(shape))
    if kind == "rng":
        v = r.uniform(-1, 1, size_) * 10.0**e
    elif kind == "spike":
        v = np.zeros(size_)
        if size_:
            v[s % size_] = 1.0
            if s % 3 == 0:
                v[(s * 7 + 1) % size_] = -2.0
    elif kind == "near":  # almost constant
        v = (3.0 + 1e-6 * r.uniform(-1, 1, size_)) * 10.0**e
    elif kind == "int":
        v = r.randint(-9, 10, size_).astype(float)
    else:
        v = np.cumsum(r.standard_normal(size_)) + 5.0
    return v.reshape(shape)


# ---------------------------------------------------------------- points

FRACS = [0.5, 0.25, 0.9, 0.01, 0.3333, 0.75]
DIST = [0.5, 1.0, 0.01, 3.0, 40.0]


def pos_in():
    return st.one_of(
        st.tuples(st.just("in"), st.one_of(st.sampled_from(FRACS), st.floats(0.001, 0.999))),
        st.tuples(st.just("node"), st.integers(0, 60)),
        st.tuples(st.just("mid"), st.integers(0, 60)),
        st.tuples(st.just("near"), st.integers(0, 60)),
        st.sampled_from([("lo", 0), ("hi", 0)]),
    )


def pos_out(far=True):
    o = [st.tuples(st.sampled_from(["below", "above"]), st.sampled_from(DIST))]
    if far:
        o.append(st.tuples(st.sampled_from(["below", "above"]), st.integers(3, 15).map(lambda e: 10.0**e)))
    return st.one_of(*o)


def positions(inside_only=False, far=True):
    if inside_only:
        return pos_in()
    return st.one_of(pos_in(), pos_in(), pos_out(far))


@st.composite
def points(draw, d, inside_only=False, far=True, max_exp=4, max_bulk=40, min_total=1):
    e = draw(st.lists(st.tuples(*[positions(inside_only, far)] * d).map(lambda t: [list(p) for p in t]),
                      min_size=0, max_size=max_exp))
    nb = draw(st.one_of(st.integers(0 if inside_only else 2, 6), st.integers(0, max_bulk)))
    if max_bulk >= 40 and d <= 4 and draw(st.sampled_from(range(9))) == 5:
        nb = draw(st.sampled_from([65, 129, 257, 520, 1030] + ([4100] if d <= 2 else [])))
    if len(e) + nb < min_total:
        nb = min_total
    return {"e": e, "b": [draw(st.integers(0, 99999)), nb, 0 if inside_only else 1,
                          1 if far else 0]}


def coord(ax, p):
    a, b, n = ref.ax_a(ax), ref.ax_b(ax), ref.ax_n(ax)
    k, v = p
    if k == "in":
        return min(max(a + (b - a) * v, a), b)
    if k == "lo":
        return a
    if k == "hi":
        return b
    if k in ("below", "above"):
        return a - (b - a) * v if k == "below" else b + (b - a) * v
    g = ref.ax_nodes(ax)
    if k == "node":
        return float(g[v % n])
    j = v % (n - 1)
    if k == "mid":
        return float((g[j] + g[j + 1]) / 2)
    # near a node, inside
    return float(g[j] + (g[j + 1] - g[j]) * (1e-5 if v % 2 else 1 - 1e-5))


def bulk(axs, b):
    s, cnt, out, far = b
    r = np.random.RandomState(s % (2**31))
    P = np.empty((cnt, len(axs)))
    for i in range(cnt):
        for j, ax in enumerate(axs):
            q = r.randint(0, 100)
            if out and len(axs) == 1 and r.randint(0, 4) == 0:
                q = 85
            if q < 50:
                p = ("in", r.uniform(0.0005, 0.9995))
            elif q < 60:
                p = ("node", r.randint(0, 1000))
            elif q < 68:
                p = ("mid", r.randint(0, 1000))
            elif q < 72:
                p = ("lo", 0)
            elif q < 76:
                p = ("hi", 0)
            elif q < 80 or not out or (len(axs) > 2 and q < 86):
                p = ("near", r.randint(0, 1000))
            elif q < 96 or not far:
                p = (("below", "above")[r.randint(0, 2)], 10 ** r.uniform(-2, 2))
            else:
                p = (("below", "above")[r.randint(0, 2)], 10 ** r.uniform(3, 15))
            P[i, j] = coord(ax, p)
    return P


def build_points(axs, spec):
    E = [[coord(ax, p) for ax, p in zip(axs, pt)] for pt in spec["e"]]
    B = bulk(axs, spec["b"])
    if E:
        return np.vstack([np.array(E, dtype=float).reshape(len(E), len(axs)), B])
    return B


def shape_of(axs):
    return tuple(ref.ax_n(a) for a in axs)


def label_points(ctx, axs, P):
    """classify; returns mask of outside points"""
    out = ref.outside(axs, P)
    if out.any():
        ctx.label("has point outside")
    if (~out).any():
        ctx.label("has point inside")
    for j, ax in enumerate(axs):
        if np.isin(P[:, j], ref.ax_nodes(ax)).any():
            ctx.label("coordinate exactly on a node")
        if ((P[:, j] == ref.ax_a(ax)) | (P[:, j] == ref.ax_b(ax))).any():
            ctx.label("coordinate exactly on the boundary")
        w = ref.ax_b(ax) - ref.ax_a(ax)
        if (np.abs(P[:, j] - ref.ax_a(ax)) > 500 * w).any():
            ctx.label("coordinate > 500 widths away")
        if ref.ax_n(ax) == 2:
            ctx.label("axis with 2 nodes")
    return out


def fmt_first(bad, got, r, P):
    idx = np.argwhere(bad)[0]
    n = idx[0]
    return "point #%d %s: got %r, expected %s (tol %.3g)" % (
        n, [float(v) for v in np.atleast_1d(P[n])], float(np.asarray(got)[tuple(idx)]),
        " or ".join(repr(float(a[tuple(idx)])) for a in r.alts[:4]),
        float(np.broadcast_to(r.tol, np.asarray(got).shape)[tuple(idx)]))


def nvals():
    """number of values per node of vector-valued data"""
    return st.sampled_from([1, 2, 3, 1, 2, 3, 1, 2, 3, 2, 3, 4, 5, 8, 9, 10, 17, 33, 66])


def holes():
    """now and then a node without a value (NaN), see `punch`"""
    return st.sampled_from([None] * 7 + [1, 2]).flatmap(lambda k: st.none() if k is None else st.lists(st.integers(0, 99999), min_size=k, max_size=k))


def punch(axs, V, P, seeds):
    """data with NaN at some nodes, and the points far enough from them"""
    d = len(axs)
    V, keep = V.copy(), np.ones(len(P), dtype=bool)
    for s in seeds:
        idx = np.unravel_index(s % int(np.prod(V.shape[:d])), V.shape[:d])
        V[idx] = np.nan
        near = np.ones(len(P), dtype=bool)
        for j, ax in enumerate(axs):
            g = ref.ax_nodes(ax)
            c = np.clip(np.searchsorted(g, P[:, j]) - 1, 0, len(g) - 2)
            near &= (idx[j] >= c - 1) & (idx[j] <= c + 2)
        keep &= ~near
    return V, P[keep]


FAR = [float("inf"), float("-inf"), 1e300, -1e300, 1.7e308]


def farther():
    """coordinates replaced by infinite or enormous ones (for modes in which only the side counts)"""
    return st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, 99), st.integers(0, 4), st.integers(0, len(FAR) - 1)).map(list), min_size=1, max_size=4))


def push(P, spec, ctx):
    if not len(P) or not spec:
        return P
    P = P.copy()
    for i, j, q in spec:
        P[i % P.shape[0], j % P.shape[1]] = FAR[q]
    ctx.label("infinite or enormous coordinate")
    return P
