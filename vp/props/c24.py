import itertools
import random

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, source, sp
from ..core import Unit, require

RULE = ("each unit fixes a function, axis types, extrapolation mode and one relation (linear combination, affine change of an axis, reversal of an axis, reordering of "
        "the axes, data constant along an axis); cases: grid, data, points and the parameters of the relation; two calls are compared; "
        "non-trivial: the relation is not the identity, there is at least one point and the data are not all equal")
ASSUMPTIONS = ["rounding: the sum of the tolerances of both calls (1e-10 of the sum of |weight*value| plus rounding of the coordinates)",
               "in 'constant' mode, points within 1e-9 of the boundary are left out of the affine relation (rounding decides on which side they fall)"]

RELS = ["linear", "affine", "reverse", "permute", "const"]


def strat(cfg):
    d = len(cfg["types"])
    coef = st.one_of(st.sampled_from([1.0, -1.0, 2.0, 0.5, 0.0, -3.25]), st.floats(-10, 10))

    @st.composite
    def s(draw):
        return {"cfg": cfg, "axes": draw(gen.axes(cfg["types"])), "v": draw(gen.values()), "w": draw(gen.values()), "p": draw(gen.points(d, max_bulk=14)),
                "m": draw(gen.nvals()), "al": draw(coef), "be": draw(coef), "ax": draw(st.integers(0, d - 1)),
                "sc": draw(st.one_of(st.sampled_from([1.0, 2.0, 0.5, 10.0, 0.1, 37.5]), st.floats(0.02, 50))), "sh": draw(st.one_of(st.sampled_from([0.0, 1.0, -5.5, 100.0]), st.floats(-99, 99))),
                "perm": draw(st.integers(0, 23)), "q": draw(st.integers(0, 99999))}

    return s


def any_strat(cfgs):
    @st.composite
    def s(draw):
        return draw(strat(draw(st.sampled_from(cfgs)))())

    return s


def run(ctx, fn, axs, V, P, mode, multi):
    """-> values, tolerance"""
    L = sp.lib()
    import interpolation as I

    grid = ref.grid_obj(axs)
    what = "%s %s %s" % (fn, "".join(a["k"] for a in axs), mode)
    if fn == "eval_linear":
        r = ctx.call(what, L.eval_linear, grid, V, P, sp.opt(mode))
        k = 1
    elif fn == "eval_cubic":
        r = ctx.call(what, L.eval_cubic, grid, ctx.call("filter_cubic", L.filter_cubic, grid, V), P, sp.opt(mode))
        k = 3
    elif fn == "mlinterp":
        r = ctx.call(what, I.mlinterp, grid, V, P)
        k = 1
    else:
        r = ctx.call(what, I.interp, *(grid + (V, P)))
        k = 1
    sp.expect_array(what, r, (len(P),) + V.shape[len(axs):])
    return r, ref.interpolant(axs, V, P, k=k, mode=mode).tol


def check(case, ctx):
    cfg, axs = case["cfg"], case["axes"]
    fn, mode, rel, multi = cfg["fn"], cfg["mode"], cfg["rel"], cfg["multi"]
    d = len(axs)
    shape = gen.shape_of(axs)
    tail = (case["m"],) if multi else ()
    V = gen.build_values(case["v"], shape + tail)
    P = gen.build_points(axs, case["p"])
    keep = np.ones(len(P), dtype=bool)
    j = case["ax"]
    nt = True
    if rel == "linear":
        W = gen.build_values(case["w"], shape + tail)
        al, be = case["al"], case["be"]
        r1, t1 = run(ctx, fn, axs, V, P, mode, multi)
        r2, t2 = run(ctx, fn, axs, W, P, mode, multi)
        got, t3 = run(ctx, fn, axs, al * V + be * W, P, mode, multi)
        exp = al * r1 + be * r2
        tol = abs(al) * t1 + abs(be) * t2 + t3
        nt = al != 0 and be != 0 and np.ptp(W) > 0
    elif rel == "affine":
        s, h = case["sc"], case["sh"]
        ax = axs[j]
        w = ref.ax_b(ax) - ref.ax_a(ax)
        if not 1e-4 < w < 1e5:
            h *= w
        if ax["k"] == "n" and np.min(np.diff(ax["x"])) < 1e-4 * max(abs(ax["x"][0]), abs(ax["x"][-1]), w):
            # tiny cells: only changes that do not round the nodes
            s, h = 2.0 ** round(np.log2(s)), 0.0
        f = lambda x: float(s * x + h)  # noqa: E731
        if ax["k"] == "u":
            new = {"k": "u", "a": f(ax["a"]), "b": f(ax["b"]), "n": ax["n"]}
        else:
            new = {"k": "n", "x": [f(x) for x in ax["x"]]}
        ax2 = axs[:j] + [new] + axs[j + 1:]
        Q = P.copy()
        Q[:, j] = s * P[:, j] + h
        exp, t1 = run(ctx, fn, axs, V, P, mode, multi)
        got, t2 = run(ctx, fn, ax2, V, Q, mode, multi)
        tol = t1 + t2
        if mode == "constant":
            w = ref.ax_b(ax) - ref.ax_a(ax)
            w = 1e-9 * w + 1e-12 * (abs(ref.ax_a(ax)) + abs(ref.ax_b(ax)) + abs(h))
            keep = (np.abs(P[:, j] - ref.ax_a(ax)) > w) & (np.abs(P[:, j] - ref.ax_b(ax)) > w)
        nt = (s, h) != (1.0, 0.0)
    elif rel == "reverse":
        ax = axs[j]
        if ax["k"] == "u":
            new = {"k": "u", "a": -ax["b"], "b": -ax["a"], "n": ax["n"]}
        else:
            new = {"k": "n", "x": [-x for x in ax["x"][::-1]]}
        ax2 = axs[:j] + [new] + axs[j + 1:]
        Q = P.copy()
        Q[:, j] = -P[:, j]
        exp, t1 = run(ctx, fn, axs, V, P, mode, multi)
        got, t2 = run(ctx, fn, ax2, np.ascontiguousarray(np.flip(V, axis=j)), Q, mode, multi)
        tol = t1 + t2
    elif rel == "permute":
        perms = list(itertools.permutations(range(d)))
        p = perms[case["perm"] % len(perms)]
        exp, t1 = run(ctx, fn, axs, V, P, mode, multi)
        W = np.ascontiguousarray(np.transpose(V, p + ((d,) if multi else ())))
        got, t2 = run(ctx, fn, [axs[q] for q in p], W, np.ascontiguousarray(P[:, list(p)]), mode, multi)
        tol = t1 + t2
        nt = p != tuple(range(d))
    else:
        V = np.ascontiguousarray(np.broadcast_to(np.take(V, [0], axis=j), V.shape))
        Q = P.copy()
        Q[:, j] = gen.build_points([axs[j]], {"e": [], "b": [case["q"], len(P), 1, 1]})[:, 0] if len(P) else []
        exp, t1 = run(ctx, fn, axs, V, P, mode, multi)
        got, t2 = run(ctx, fn, axs, V, Q, mode, multi)
        tol = t1 + t2
    bad = ~((np.abs(got - exp) <= tol) | (got == exp))
    bad[~keep] = False
    require(not bad.any(), lambda: "%s %s %s, relation %s: point %s: %r against %r (tol %.2g)" % (
        fn, "".join(a["k"] for a in axs), mode, rel, P[np.argwhere(bad)[0][0]].tolist(), float(got[bad][0]), float(exp[bad][0]), float(np.broadcast_to(tol, got.shape)[bad][0])))
    gen.label_points(ctx, axs, P)
    ctx.label("relation " + rel, "function " + fn, "mode " + mode, "%dd" % d)
    ctx.nontrivial(nt and len(P) > 0 and keep.any() and np.ptp(V) > 0)


def units(tier, seed):
    rnd = random.Random(seed + 2400)
    us = []
    th = tier == "thorough"
    combos = []
    for d in (1, 2, 3):
        for t in ["".join(c) for c in itertools.product("un", repeat=d)]:
            combos.append(t)
    allc = []
    for t in combos:
        for fn in ("eval_linear", "eval_cubic", "mlinterp", "interp"):
            if fn == "eval_cubic" and "n" in t:
                continue
            for mode in ("linear", "nearest", "constant"):
                if fn == "mlinterp" and mode != "linear" or fn == "interp" and mode != "nearest":
                    continue
                for multi in (False, True):
                    if multi and fn in ("mlinterp", "interp"):
                        continue
                    for rel in RELS:
                        if rel == "const" and mode == "constant" or rel == "permute" and len(t) == 1:
                            continue
                        allc.append(dict(fn=fn, types=t, mode=mode, multi=multi, rel=rel))
    # any of them, up to 4d (not compiled unless something differs)
    for d in (1, 2, 3, 4):
        cs = [c for c in allc if len(c["types"]) == d]
        if d == 4:
            cs = [dict(c, types=c["types"] + t) for c in allc if len(c["types"]) == 3 for t in "un" if (t == "u" or c["fn"] != "eval_cubic")]
        us.append(source.unit("any-%dd" % d, any_strat(cs), check, quick={1: 300, 2: 400, 3: 300, 4: 150}[d],
                              thorough={1: 4000, 2: 5000, 3: 4000, 4: 1500}[d], cost=d * d))
    rnd.shuffle(allc)
    cnt = {}
    lim = {1: 6, 2: 5, 3: 2} if not th else {1: 99, 2: 99, 3: 30}
    for c in allc:
        d = len(c["types"])
        if c["fn"] == "eval_cubic" and d == 3 and not th and c["multi"]:
            continue
        key = (c["fn"], c["rel"], d)
        if cnt.get(key, 0) >= lim[d]:
            continue
        cnt[key] = cnt.get(key, 0) + 1
        us.append(Unit("%(fn)s-%(types)s-%(mode)s-%(rel)s" % c + ("-m" if c["multi"] else ""), strat(c), check, quick=45, thorough=400,
                       cost=d * (2 if c["fn"] == "eval_cubic" else 1)))
    return us
