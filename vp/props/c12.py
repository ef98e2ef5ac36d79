import itertools
import random

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, source, sp
from ..core import Unit, require

RULE = ("cases: axes, values, points inside and outside (up to 1e15 widths), call form; compared with the reference and with eval_linear; "
        "non-trivial: at least one point and values not all equal")
ASSUMPTIONS = ["relative tolerance 1e-10 of the sum of |weight*value|"]


def strat(types, src=False):
    d = len(types)

    @st.composite
    def s(draw):
        return {"axes": draw(gen.axes(types)), "v": draw(gen.values()), "hole": draw(gen.holes()), "form": draw(st.sampled_from(["tuple", "list"])),
                "p": draw(gen.points(d, max_bulk=24 if src else 40))}

    return s


def any_strat(d):
    @st.composite
    def s(draw):
        return draw(strat("".join(draw(st.lists(st.sampled_from("un"), min_size=d, max_size=d))), True)())

    return s


def check(case, ctx):
    import interpolation as I

    axs, form = case["axes"], case["form"]
    d = len(axs)
    V = gen.build_values(case["v"], gen.shape_of(axs))
    P = gen.build_points(axs, case["p"])
    D = V
    if case.get("hole"):
        D, P = gen.punch(axs, V, P, case["hole"])
        ctx.label(*(["a node far away has no value"] if len(P) else []))
    grid = ref.grid_obj(axs)
    N = len(P)
    what = "mlinterp %s form %s" % ("".join(a["k"] for a in axs), form)
    if form == "list":
        idx = np.arange(N)
        got = sp.expect_array(what, ctx.call(what, I.mlinterp, grid, D, P), (N,))
    else:
        idx = np.unique(np.linspace(0, N - 1, min(N, 6)).astype(int)) if N else np.array([], dtype=int)
        got = np.array([sp.expect_scalar(what, ctx.call(what, I.mlinterp, grid, D, tuple(float(v) for v in P[i]))) for i in idx])
    R = ref.interpolant(axs, V, P, k=1)
    sp.compare(what, R, idx, got, P)
    if form == "list" and d <= 3:
        el = ctx.call("eval_linear", sp.lib().eval_linear, grid, D, P)
        bad = ~(np.abs(el - got) <= 2 * R.tol)
        require(not bad.any(), lambda: "%s differs from eval_linear at %s: %r / %r" % (what, P[bad][0].tolist(), got[bad][0], el[bad][0]))
    gen.label_points(ctx, axs, P)
    ctx.label("form " + form, "%dd" % d)
    ctx.nontrivial(len(idx) > 0 and np.ptp(V) > 0)


def units(tier, seed):
    rnd = random.Random(seed + 12)
    us = []
    for d in (1, 2, 3, 4, 5):
        combos = ["".join(c) for c in itertools.product("nu", repeat=d)]
        if tier == "quick" and d >= 4:
            combos = [combos[0], combos[-1]] + rnd.sample(combos[1:-1], 4 if d == 4 else 2)
        for c in combos:
            us.append(Unit("mlinterp-" + c, strat(c), check, quick={1: 500, 2: 350, 3: 250, 4: 150, 5: 80}[d], cost=1 + d))
        us.append(source.unit("mlinterp-%dd" % d, any_strat(d), check, quick=300, thorough=5000, cost=d * d))
    return us
