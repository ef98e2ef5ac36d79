from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, source, sp
from ..core import Unit, require

RULE = ("cases: uniform grid, node values, points of the closed grid, form of filtering and evaluation; "
        "non-trivial: at least one evaluated point, values not affine in the node numbers")
ASSUMPTIONS = ["reference: tensor product of scipy natural cubic splines on node numbers, relative tolerance 1e-10 of the sum of |weight*value|"]

FORMS = ["vec", "point", "mvec", "mpoint", "spline"]


def strat(d, forms):
    @st.composite
    def s(draw):
        return {"axes": draw(gen.axes("u" * d)), "v": draw(gen.values()), "form": draw(st.sampled_from(forms)),
                "m": draw(gen.nvals()), "p": draw(gen.points(d, inside_only=True))}

    return s


def check(case, ctx):
    L = sp.lib()
    axs, form = case["axes"], case["form"]
    d = len(axs)
    shape = gen.shape_of(axs)
    multi = sp.is_multi(form)
    V = gen.build_values(case["v"], shape + ((case["m"],) if multi else ()))
    P = gen.build_points(axs, case["p"])
    grid = ref.grid_obj(axs)
    if form == "spline":
        C = ctx.call("prefilter(k=3)", L.prefilter, grid, V, k=3)
        got = sp.expect_array("eval_spline", ctx.call(
            "eval_spline(k=3)", L.eval_spline, grid, C, P, out=None, k=3, diff="None", extrap_mode="linear"), (len(P),))
        idx = np.arange(len(P))
    else:
        C = ctx.call("filter_cubic", L.filter_cubic, grid, V)
        idx, got = sp.evaluate(ctx, L.eval_cubic, "eval_cubic", grid, C, P, form)
    r = ref.interpolant(axs, V, P, k=3)
    sp.compare("cubic %dd %s" % (d, form), r, idx, got, P)
    if form in ("vec", "mvec", "spline"):
        # every node value is reproduced
        nodes = ref.enum_nodes([ref.ax_nodes(a) for a in axs])
        if len(nodes) > 300:
            nodes_i = np.unique(np.linspace(0, len(nodes) - 1, 300).astype(int))
        else:
            nodes_i = np.arange(len(nodes))
        W = V.reshape((-1,) + V.shape[d:])[nodes_i]
        if form == "spline":
            got = ctx.call("eval_spline", L.eval_spline, grid, C, nodes[nodes_i], out=None, k=3, diff="None", extrap_mode="linear")
        else:
            got = ctx.call("eval_cubic", L.eval_cubic, grid, C, np.ascontiguousarray(nodes[nodes_i]))
        rn = ref.interpolant(axs, V, nodes[nodes_i], k=3)
        bad = ~(np.abs(got - W) <= rn.tol)
        require(not bad.any(), lambda: "node value not reproduced: node %s value %r got %r" % (
            nodes[nodes_i][np.argwhere(bad)[0][0]], W[bad][0], got[bad][0]))
    gen.label_points(ctx, axs, P)
    ctx.label("form " + form, "%dd" % d)
    nonaff = any(np.abs(np.diff(V, n=2, axis=j)).max(initial=0) > 0 for j in range(d))
    ctx.nontrivial(len(idx) > 0 and nonaff)


def units(tier, seed):
    us = []
    for d in (1, 2, 3):
        for g in (["vec", "mvec", "spline"], ["point", "mpoint"]):
            us.append(Unit("cubic-%dd-%s" % (d, g[0]), strat(d, g), check, quick={1: 500, 2: 350, 3: 200}[d],
                           cost=3 * d))
    for d in (1, 2, 3, 4):
        us.append(source.unit("cubic-%dd" % d, strat(d, FORMS + sp.FORMS[2:3] + sp.FORMS[5:]), check, quick={4: 150}.get(d, 300),
                              thorough={4: 1500}.get(d, 4000), cost=3 * d * d))
    for f in FORMS[:4]:
        us.append(Unit("cubic-4d-" + f, strat(4, [f]), check, quick=80, thorough=800, cost=40))
    return us
