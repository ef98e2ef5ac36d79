import itertools
import random

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, source, sp
from ..core import Unit

RULE = ("cases: grid, values, points inside / on the boundary / outside along some axes / very far, mode, evaluation form; "
        "non-trivial: at least one evaluated point outside the grid and values not all equal")
ASSUMPTIONS = ["in 'constant' mode no generated coordinate lies outside the grid by less than 1% of its width (rounding of the bound is not judged)",
               "docs/index.md calls 'nearest' the default, splines.md and the code say 'linear'; checked: linear"]

FORMS = ["vec", "point", "mvec", "mpoint", "vec_out", "mvec_out", "mpoint_out", "tuple"]


def strat(types, k, forms, rot=None):
    """rot: None: every form in every mode; else two modes per form (rotating), to save compilations"""
    d = len(types)
    pairs = [(f, m) for f in forms for m in sp.MODES]
    if rot is not None:
        pairs = []
        for f in forms:
            j = FORMS.index(f) + rot
            pairs += [(f, sp.MODES[j % 4]), (f, sp.MODES[(j + 1 + (j // 4) % 2) % 4])]

    @st.composite
    def s(draw):
        form, mode = draw(st.sampled_from(pairs))
        return {"k": k, "axes": draw(gen.axes(types)), "v": draw(gen.values()), "form": form, "mode": mode, "m": draw(gen.nvals()), "p": draw(gen.points(d)), "far": draw(gen.farther())}

    return s


def any_strat(d, k):
    @st.composite
    def s(draw):
        types = "u" * d if k == 3 else "".join(draw(st.lists(st.sampled_from("un"), min_size=d, max_size=d)))
        return {"k": k, "axes": draw(gen.axes(types)), "v": draw(gen.values()), "form": draw(st.sampled_from(FORMS + ["spline"])),
                "mode": draw(st.sampled_from(sp.MODES)), "m": draw(gen.nvals()), "p": draw(gen.points(d)), "far": draw(gen.farther())}

    return s


def check(case, ctx):
    L = sp.lib()
    axs, form, mode, k = case["axes"], case["form"], case["mode"], case["k"]
    shape = gen.shape_of(axs)
    V = gen.build_values(case["v"], shape + ((case["m"],) if sp.is_multi(form) else ()))
    P = gen.build_points(axs, case["p"])
    if mode in ("nearest", "constant"):
        P = gen.push(P, case.get("far"), ctx)
    grid = ref.grid_obj(axs)
    if form == "spline":
        C = V if k == 1 else ctx.call("prefilter", L.prefilter, grid, V, k=3)
        got = sp.expect_array("eval_spline", ctx.call(
            "eval_spline", L.eval_spline, grid, C, P, k=k,
            **({} if mode == "default" else dict(out=None, diff="None", extrap_mode=mode))), (len(P),))
        idx = np.arange(len(P))
    else:
        C = V if k == 1 else ctx.call("filter_cubic", L.filter_cubic, grid, V)
        fn = L.eval_linear if k == 1 else L.eval_cubic
        idx, got = sp.evaluate(ctx, fn, "eval_linear" if k == 1 else "eval_cubic", grid, C, P, form, mode)
    r = ref.interpolant(axs, V, P, k=k, mode="linear" if mode == "default" else mode)
    sp.compare("k=%d %s %s mode=%s" % (k, "".join(a["k"] for a in axs), form, mode), r, idx, got, P)
    out = gen.label_points(ctx, axs, P)
    ctx.label("form " + form, "mode " + mode, "k=%d" % k, "%dd" % len(axs))
    ctx.nontrivial(len(idx) > 0 and out[idx].any() and np.ptp(V) > 0)


def units(tier, seed):
    rnd = random.Random(seed)
    us = []
    rot = seed if tier == "quick" else None
    for d in (1, 2, 3):
        combos = ["".join(c) for c in itertools.product("un", repeat=d)]
        if d == 3 and tier == "quick":
            combos = ["uuu", "nnn"] + rnd.sample(combos[1:-1], 1)
        for c in combos:
            fs = FORMS + (["spline"] if d <= 2 else [])
            if d == 3:
                for g in (fs[:4], fs[4:]):
                    us.append(Unit("lin-%s-%s" % (c, g[0]), strat(c, 1, g, rot), check, quick=150, thorough=3000, cost=10))
            else:
                us.append(Unit("lin-" + c, strat(c, 1, fs), check, quick=450, thorough=4000, cost=25))
    for d in (1, 2, 3):
        for f in FORMS + ["spline"]:
            if d == 3 and f == "spline":
                continue
            us.append(Unit("cubic-%dd-%s" % (d, f), strat("u" * d, 3, [f], rot if d == 3 else None), check, quick={1: 120, 2: 100, 3: 80}[d],
                           thorough=1500, cost=6 * d))
    # every mix of axes, form and mode (not compiled unless something differs)
    for k in (1, 3):
        for d in (1, 2, 3, 4):
            us.append(source.unit("k%d-%dd" % (k, d), any_strat(d, k), check, quick={1: 400, 2: 400, 3: 300, 4: 200 if k == 1 else 120}[d],
                                  thorough={1: 6000, 2: 6000, 3: 4000, 4: 1500}[d], cost=k * d * d))
    return us
