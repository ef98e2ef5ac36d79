import itertools
import random

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, source, sp
from ..core import Unit, require

RULE = ("cases: axes, values, points and call form; compared with the reference (multilinear at the point projected on the grid), in 1d also with numpy.interp; "
        "non-trivial: at least one point and values not all equal")
ASSUMPTIONS = ["relative tolerance 1e-10 of the sum of |weight*value|"]

FORMS = ["scalar", "tuple", "point", "vectorized", "product", "int", "mixed"]


def forms_of(d):
    f = ["scalar", "tuple", "vectorized"]
    if d == 1:
        return f + ["product", "int"]
    if d == 2:
        return f + ["point", "product", "int", "mixed"]
    return f + ["point", "mixed"]


def strat(types, forms, src=False):
    d = len(types)

    @st.composite
    def s(draw):
        return {"axes": draw(gen.axes(types)), "v": draw(gen.values()), "hole": draw(gen.holes()), "form": draw(st.sampled_from(forms)),
                "p": draw(gen.points(d, max_bulk=20 if src else 40)), "q": draw(st.one_of(st.integers(0, 7), st.integers(0, 7), st.integers(0, 7), st.sampled_from([70, 300, 700]))), "far": draw(gen.farther())}

    return s


def any_strat(d):
    @st.composite
    def s(draw):
        types = "".join(draw(st.lists(st.sampled_from("un"), min_size=d, max_size=d)))
        return draw(strat(types, forms_of(d), True)())

    return s


def check(case, ctx):
    import interpolation as I

    axs, form = case["axes"], case["form"]
    d = len(axs)
    V = gen.build_values(case["v"], gen.shape_of(axs))
    P = gen.build_points(axs, case["p"])
    if form not in ("int", "mixed"):
        P = gen.push(P, case.get("far"), ctx)
    grid = ref.grid_obj(axs)
    D = V
    if case.get("hole") and form not in ("product", "int", "mixed"):
        D, P = gen.punch(axs, V, P, case["hole"])
        ctx.label(*(["a node far away has no value"] if len(P) else []))
    N = len(P)
    what = "interp %s form %s" % ("".join(a["k"] for a in axs), form)
    f = I.interp
    if form == "vectorized":
        idx = np.arange(N)
        got = sp.expect_array(what, ctx.call(what, f, *(grid + (D, P))), (N,))
    elif form == "product" and d == 1:
        idx = np.arange(N)
        got = sp.expect_array(what, ctx.call(what, f, *(grid + (V, P[:, 0].copy()))), (N,))
    elif form == "product":
        M = case["q"]
        if M > 7:  # a long list along the second axis
            X, Y = P[:9, 0].copy(), np.resize(P[:, 1], M)
            N = len(X)
            ctx.label("product with a long list")
        else:
            M = min(N, M)
            X, Y = P[:, 0].copy(), P[:M, 1].copy()
        got = sp.expect_array(what, ctx.call(what, f, *(grid + (V, X, Y))), (N, M))
        P = np.array([(x, y) for x in X for y in Y]).reshape(-1, 2)
        got = got.ravel()
        idx = np.arange(len(P))
        if N != M:
            ctx.label("product of different lengths")
    elif form == "int":
        P = np.round(np.clip(P, -1e6, 1e6))
        idx = np.unique(np.linspace(0, N - 1, min(N, 5)).astype(int)) if N else np.array([], dtype=int)
        got = np.array([sp.expect_scalar(what, ctx.call(what, f, *(grid + (V,) + tuple(int(v) for v in P[i])))) for i in idx])
    elif form == "mixed":
        # some coordinates given as integers, the others as floats
        whole = [(case["q"] >> i) % 2 == 1 for i in range(d)]
        for i in range(d):
            if whole[i]:
                P[:, i] = np.round(np.clip(P[:, i], -1e6, 1e6))
        idx = np.unique(np.linspace(0, N - 1, min(N, 5)).astype(int)) if N else np.array([], dtype=int)
        got = np.array([sp.expect_scalar(what, ctx.call(what, f, *(grid + (V,) + tuple(int(v) if w else float(v) for v, w in zip(P[i], whole))))) for i in idx])
    else:
        idx = np.unique(np.linspace(0, N - 1, min(N, 6)).astype(int)) if N else np.array([], dtype=int)
        got = np.empty(len(idx))
        for q, i in enumerate(idx):
            if form == "scalar":
                r = ctx.call(what, f, *(grid + (D,) + tuple(float(v) for v in P[i])))
            elif form == "tuple":
                r = ctx.call(what, f, *(grid + (D, tuple(float(v) for v in P[i]))))
            else:
                r = ctx.call(what, f, *(grid + (D, P[i].copy())))
            got[q] = sp.expect_scalar(what, r)
    R = ref.interpolant(axs, V, P, k=1, mode="nearest")
    sp.compare(what, R, idx, got, P)
    if d == 1:
        npi = np.interp(P[idx, 0], ref.ax_nodes(axs[0]), V)
        require(np.all(np.abs(npi - got) <= 2 * R.tol[idx] + 1e-12 * np.max(np.abs(V), initial=0)), what + " differs from numpy.interp")
    out = gen.label_points(ctx, axs, P)
    ctx.label("form " + form, "%dd" % d, *(["uniform axes"] if any(a["k"] == "u" for a in axs) else []))
    ctx.nontrivial(len(idx) > 0 and np.ptp(V) > 0)


def units(tier, seed):
    rnd = random.Random(seed + 11)
    us = []
    for d in (1, 2, 3, 4):
        combos = ["".join(c) for c in itertools.product("nu", repeat=d)]
        if tier == "quick" and d >= 3:
            combos = [combos[0], combos[-1]] + rnd.sample(combos[1:-1], 2)
        for c in combos:
            us.append(Unit("interp-" + c, strat(c, forms_of(d)), check, quick={1: 600, 2: 450, 3: 250, 4: 160}[d], cost=2 + 2 * d))
        us.append(source.unit("interp-%dd" % d, any_strat(d), check, quick=300, thorough=5000, cost=d * d))
    return us
