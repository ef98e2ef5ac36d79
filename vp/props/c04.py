import itertools
import random

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, source, sp
from ..core import Unit, require, fail

RULE = ("each unit fixes a list of partial derivatives, grid types, value type and evaluation form (drawn from VERIF_SEED plus a fixed "
        "core); cases: grid, values, points; non-trivial: a derivative of order 1 or more is requested at a point where its true value is not zero")
ASSUMPTIONS = ["outside the grid derivatives are only judged in 'linear' mode (linear continuation) and 'constant' mode (zero)",
               "on kinks of a linear spline either one-sided derivative is accepted",
               "cubic splines: orders 0 and 1 (higher orders are not implemented and raise)"]


def strat(cfg):
    d = len(cfg["types"])

    @st.composite
    def s(draw):
        return dict(cfg, axes=draw(gen.axes(cfg["types"])), v=draw(gen.values()), m=draw(gen.nvals()),
                    p=draw(gen.points(d, inside_only=cfg["mode"] == "nearest", far=True, max_bulk=24)))

    return s


def any_strat(d, k):
    @st.composite
    def s(draw):
        types = "u" * d if k == 3 else "".join(draw(st.lists(st.sampled_from("un"), min_size=d, max_size=d)))
        mode = draw(st.sampled_from(["linear", "linear", "nearest", "constant"]))
        order = st.lists(st.sampled_from([0, 0, 0, 1, 1, 1, 1, 2, 2, 3] if k == 1 else [0, 1]), min_size=d, max_size=d)
        orders = draw(st.lists(order, min_size=1, max_size=(13 if draw(st.sampled_from(range(6))) == 4 else 5) if d < 4 else 3))
        return dict(k=k, types=types, orders=orders, spell=draw(st.sampled_from([0, 0, 1, 2])), vv=draw(st.booleans()), form=draw(st.sampled_from(FORMS)), mode=mode,
                    axes=draw(gen.axes(types)), v=draw(gen.values()), m=draw(gen.nvals()),
                    p=draw(gen.points(d, inside_only=mode == "nearest", far=True, max_bulk=24)))

    return s


def check(case, ctx):
    L = sp.lib()
    axs, k, mode, vv, form = case["axes"], case["k"], case["mode"], case["vv"], case["form"]
    orders = [tuple(o) for o in case["orders"]]
    no = len(orders)
    V = gen.build_values(case["v"], gen.shape_of(axs) + ((case["m"],) if vv else ()))
    P = gen.build_points(axs, case["p"])
    grid = ref.grid_obj(axs)
    C = V if k == 1 else ctx.call("filter_cubic", L.filter_cubic, grid, V)
    m = case["m"]
    diff = str(tuple(orders))
    if case.get("spell"):
        diff = diff.replace(" ", "") if case["spell"] == 1 else diff.replace(",", " , ").replace("(", "( ")
    what = "eval_spline(k=%d, diff=%s, %s, %s%s)" % (k, diff, mode, form, ", vector values" if vv else "")
    kw = dict(k=k, diff=diff, extrap_mode=mode)
    N = len(P)
    if form in ("vec", "vec_out"):
        idx = np.arange(N)
        shp = (N, m, no) if vv else (N, no)
        if form == "vec":
            got = sp.expect_array(what, ctx.call(what, L.eval_spline, grid, C, P, out=None, **kw), shp)
        else:
            got = np.full(shp, np.nan)
            ctx.call(what, L.eval_spline, grid, C, P, out=got, **kw)
    else:
        idx = np.unique(np.linspace(0, N - 1, min(N, 4)).astype(int))
        got = np.full((len(idx), m, no) if vv else (len(idx), no), np.nan)
        for q, i in enumerate(idx):
            p = P[i].copy()
            if form == "point_out":
                out = np.full((m, no) if vv else (no,), np.nan)
                ctx.call(what, L.eval_spline, grid, C, p, out=out, **kw)
                got[q] = out
            else:
                r = ctx.call(what, L.eval_spline, grid, C, p, out=None, **kw)
                if vv:
                    got[q] = sp.expect_array(what, r, (m, no))
                else:
                    require(len(r) == no, lambda: "%s returned %d numbers" % (what, len(r)))
                    got[q] = r
    nt = False
    for j, o in enumerate(orders):
        R = ref.interpolant(axs, V, P, k=k, orders=o, mode=mode)
        sp.compare("%s entry %d order %s" % (what, j, o), R, idx, got[..., j], P)
        if any(o) and len(idx) and np.abs(R.alts[0][idx]).max(initial=0) > 0:
            nt = True
    gen.label_points(ctx, axs, P)
    ctx.label("form " + form, "mode " + mode, "k=%d" % k, "%dd" % len(axs), "vector values" if vv else "scalar values")
    ctx.nontrivial(nt)


def first_orders(d):
    z = (0,) * d
    return [z] + [tuple(int(i == j) for i in range(d)) for j in range(d)]


FORMS = ["vec", "point", "vec_out", "point_out"]


def configs(tier, seed):
    rnd = random.Random(seed * 7919 + 4)
    out = []

    def add(k, types, orders, vv, form, mode):
        c = dict(k=k, types=types, orders=[list(o) for o in orders], vv=vv, form=form, mode=mode)
        if c not in out:
            out.append(c)

    # core: values and gradient in every dimension, for both templates and value types
    for d in (1, 2, 3):
        fo = first_orders(d)
        for k, ts in ((1, ["u" * d, "n" * d]), (3, ["u" * d])):
            for t in ts:
                for form in ("vec", "point"):
                    for vv in (False, True):
                        if d == 3 and k == 3 and vv:
                            continue
                        add(k, t, fo, vv, form, "linear")
        full = tuple([1] * d)
        add(1, "u" * d, [full] + [tuple(2 if i == 0 else 0 for i in range(d))] + fo[::-1], False, "vec", "linear")
        add(1, "n" * d, [full] + fo[::-1], True, "point_out", "linear")
        add(3, "u" * d, [full] + fo[::-1][: (2 if d == 3 else 5)], False, "vec_out", "linear")
        add(1, "u" * d, fo[1:], False, "point_out", "constant")
        add(1, "n" * d, fo[1:], True, "vec_out", "constant")
        add(3, "u" * d, fo[1:], False, "vec", "constant") if d < 3 else None
        add(3, "u" * d, fo[1:], True, "point", "constant") if d < 3 else None
        add(3, "u" * d, fo[1:], False, "point", "nearest") if d < 3 else None
        add(1, "u" * d, fo[1:], True, "vec", "nearest")
    # drawn: mixes of axes, orders, forms, modes
    want = 24 if tier == "quick" else 160
    tries = 0
    n0 = len(out)
    while len(out) < n0 + want and tries < 5000:
        tries += 1
        d = rnd.choice([1, 2, 2, 2, 3])
        k = rnd.choice([1, 1, 3])
        if d == 3 and k == 3 and rnd.random() < 0.7:
            continue
        types = "".join(rnd.choice("un") for _ in range(d)) if k == 1 else "u" * d
        mo = 2 if k == 1 else 1
        no = rnd.randint(1, 4 if d < 3 else 3)
        orders = [tuple(min(mo, rnd.choice([0, 0, 1, 1, 2])) for _ in range(d)) for _ in range(no)]
        add(k, types, orders, rnd.random() < 0.5, rnd.choice(FORMS), rnd.choice(["linear", "linear", "nearest", "constant"]))
    return out


def units(tier, seed):
    us = []
    for i, c in enumerate(configs(tier, seed)):
        d = len(c["types"])
        name = "%03d-k%d-%s-%s-%s-%s-%s" % (i, c["k"], c["types"], c["form"], "m" if c["vv"] else "s", c["mode"],
                                           "_".join("".join(map(str, o)) for o in c["orders"]))
        us.append(Unit(name, strat(c), check, quick=40, thorough=250,
                       cost=(1 if c["k"] == 1 else 1.5 ** d) * d * (1 + len(c["orders"]) / 3)))
    # any list of derivatives, form and mode (not compiled unless something differs)
    for k in (1, 3):
        for d in (1, 2, 3, 4):
            us.append(source.unit("k%d-%dd" % (k, d), any_strat(d, k), check, quick={1: 400, 2: 400, 3: 250, 4: 120 if k == 1 else 50}[d],
                                  thorough={1: 6000, 2: 6000, 3: 3000, 4: 800}[d], cost=k * d * d))
    return us
