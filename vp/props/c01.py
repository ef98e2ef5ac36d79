import itertools
import random

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, source, sp
from ..core import Unit

RULE = ("cases: grid (sizes, bounds or nodes per axis), node values, points of the closed grid, evaluation form; "
        "non-trivial: at least one evaluated point, and the values are not all equal")
ASSUMPTIONS = ["values compared with an independent reference to relative tolerance 1e-10 of the sum of |weight*value| plus rounding of x-a"]

FORMS = ["vec", "point", "mvec", "mpoint", "spline"]


def strat(types, forms):
    d = len(types)

    @st.composite
    def s(draw):
        return {"axes": draw(gen.axes(types)), "v": draw(gen.values()), "hole": draw(gen.holes()), "form": draw(st.sampled_from(forms)),
                "m": draw(gen.nvals()), "p": draw(gen.points(d, inside_only=True))}

    return s


def any_strat(d):
    @st.composite
    def s(draw):
        types = "".join(draw(st.lists(st.sampled_from("un"), min_size=d, max_size=d)))
        return {"axes": draw(gen.axes(types)), "v": draw(gen.values()), "hole": draw(gen.holes()), "form": draw(st.sampled_from(FORMS + sp.FORMS[2:3] + sp.FORMS[5:])),
                "m": draw(gen.nvals()), "p": draw(gen.points(d, inside_only=True))}

    return s


def check(case, ctx):
    L = sp.lib()
    axs, form = case["axes"], case["form"]
    shape = gen.shape_of(axs)
    multi = sp.is_multi(form)
    V = gen.build_values(case["v"], shape + ((case["m"],) if multi else ()))
    P = gen.build_points(axs, case["p"])
    D = V
    if case.get("hole"):
        D, P = gen.punch(axs, V, P, case["hole"])
        ctx.label(*(["a node far away has no value"] if len(P) else []))
    grid = ref.grid_obj(axs)
    if form == "spline":
        got = sp.expect_array("eval_spline", ctx.call(
            "eval_spline(k=1)", L.eval_spline, grid, D, P, out=None, k=1, diff="None", extrap_mode="linear"), (len(P),))
        idx = np.arange(len(P))
    else:
        idx, got = sp.evaluate(ctx, L.eval_linear, "eval_linear", grid, D, P, form)
    r = ref.interpolant(axs, V, P, k=1)
    sp.compare("linear %dd %s %s" % (len(axs), "".join(a["k"] for a in axs), form), r, idx, got, P)
    gen.label_points(ctx, axs, P)
    ctx.label("form " + form, "%dd" % len(axs))
    ctx.nontrivial(len(idx) > 0 and np.ptp(V) > 0)


def units(tier, seed):
    rnd = random.Random(seed)
    us = []
    for d in range(1, 6):
        combos = ["".join(c) for c in itertools.product("un", repeat=d)]
        if d == 5 and tier == "quick":
            combos = ["uuuuu", "nnnnn"] + rnd.sample(combos[1:-1], 2)
        elif d == 4 and tier == "quick":
            combos = ["uuuu", "nnnn"] + rnd.sample(combos[1:-1], 6)
        for c in combos:
            forms = FORMS if d <= 2 else FORMS[:4]
            if d == 5:
                forms = ["vec", "point"]
            if d == 4 and tier == "quick":
                forms = ["vec", "point"] if combos.index(c) % 2 else ["mvec", "mpoint", "vec"]
            us.append(Unit("linear-" + c, strat(c, forms), check, quick={1: 400, 2: 300, 3: 250, 4: 150, 5: 80}[d],
                           thorough={1: 4000, 2: 3000, 3: 2500, 4: 1500, 5: 500}[d], cost=d * len(forms)))
        # every mix of axes, every form (not compiled unless something differs)
        us.append(source.unit("linear-%dd" % d, any_strat(d), check, quick=400, thorough=6000, cost=d * d))
    return us
