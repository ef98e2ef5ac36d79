from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, source, sp
from ..core import Unit, require

RULE = ("cases: grid, values, points (0, 1 or many), content of the preallocated outputs; every form is run on the same data and compared "
        "with the vectorised one; non-trivial: at least one point, and results not all equal to zero")
ASSUMPTIONS = ["'same numbers' up to rounding: 1e-10 of the sum of |weight*value|"]

POISON = [float("nan"), float("inf"), 1e300, -7.25, 0.0]


def strat(types, k, modes, orders=None):
    d = len(types)

    @st.composite
    def s(draw):
        npts = draw(st.sampled_from(["none", "one", "many", "many", "many"]))
        if npts == "none":
            p = {"e": [], "b": [0, 0, 0, 0]}
        elif npts == "one":
            p = {"e": [[list(draw(gen.positions())) for _ in range(d)]], "b": [0, 0, 0, 0]}
        else:
            p = draw(gen.points(d, max_bulk=12))
        return {"k": k, "axes": draw(gen.axes(types)), "v": draw(gen.values()), "mode": draw(st.sampled_from(modes)),
                "m": draw(gen.nvals()), "p": p, "poison": draw(st.integers(0, len(POISON) - 1)),
                "orders": orders}

    return s


def any_strat(d, k):
    @st.composite
    def s(draw):
        types = "u" * d if k == 3 else "".join(draw(st.lists(st.sampled_from("un"), min_size=d, max_size=d)))
        orders = None
        if draw(st.booleans()):
            order = st.lists(st.sampled_from([0, 0, 1, 1, 2] if k == 1 else [0, 1]), min_size=d, max_size=d)
            orders = draw(st.lists(order, min_size=1, max_size=4 if d < 4 else 2))
        return draw(strat(types, k, sp.MODES if orders is None else sp.MODES[:3], orders)())

    return s


def same(what, a, b, tol, P, idx):
    bad = ~((np.abs(a - b) <= tol) | ((a == b)))
    require(not bad.any(), lambda: "%s differs: point %s: %r against %r" % (
        what, P[idx[np.argwhere(bad)[0][0]]].tolist(), float(a[bad][0]), float(b[bad][0])))


def check(case, ctx):
    if case["orders"]:
        return check_diff(case, ctx)
    L = sp.lib()
    axs, mode, k, m = case["axes"], case["mode"], case["k"], case["m"]
    poison = POISON[case["poison"]]
    MV = gen.build_values(case["v"], gen.shape_of(axs) + (m,))
    P = gen.build_points(axs, case["p"])
    grid = ref.grid_obj(axs)
    fn, nm = (L.eval_linear, "eval_linear") if k == 1 else (L.eval_cubic, "eval_cubic")
    MC = MV if k == 1 else ctx.call("filter_cubic", L.filter_cubic, grid, MV)
    md = "linear" if mode == "default" else mode
    tol = ref.interpolant(axs, MV, P, k=k, mode=md).tol
    allidx = np.arange(len(P))
    base = np.empty((len(P), m))
    for j in range(m):
        C = np.ascontiguousarray(MC[..., j])
        _, base[:, j] = sp.evaluate(ctx, fn, nm, grid, C, P, "vec", mode)
        if j in (0, m - 1):
            for form in ("vec_out", "point", "tuple"):
                idx, got = sp.evaluate(ctx, fn, nm, grid, C, P, form, mode, poison, maxpoints=3)
                same("%s[%s,%s]" % (nm, form, mode), got, base[idx, j], tol[idx, j], P, idx)
    for form in ("mvec", "mvec_out", "mpoint", "mpoint_out"):
        idx, got = sp.evaluate(ctx, fn, nm, grid, MC, P, form, mode, poison, maxpoints=3)
        same("%s[%s,%s]" % (nm, form, mode), got, base[idx], tol[idx], P, idx)
    # the general function, vectorised
    if len(P) % 3 == 0:
        kw = dict(out=None, k=k, diff="None", extrap_mode=md)
        if mode == "default":  # options left out
            kw = {} if k == 1 else dict(k=k)
        got = sp.expect_array("eval_spline", ctx.call("eval_spline", L.eval_spline, grid, MC, P, **kw), (len(P), m))
        same("eval_spline against %s" % nm, got, base, tol, P, allidx)
        ctx.label("eval_spline too")
        got = np.full((len(P), m), poison)
        args = () if mode == "default" and k == 1 else (k, "None", md)
        ctx.call("eval_spline", L.eval_spline, grid, MC, P, got, *args)
        same("eval_spline into a given array against %s" % nm, got, base, tol, P, allidx)
    gen.label_points(ctx, axs, P)
    ctx.label("mode " + mode, "k=%d" % k, "%dd" % len(axs), "%s points" % (len(P) if len(P) < 2 else "many"), "m=%d" % m)
    ctx.nontrivial(len(P) > 0 and np.any(base != 0))


def check_diff(case, ctx):
    """forms of eval_spline with derivatives"""
    L = sp.lib()
    axs, mode, k, m = case["axes"], case["mode"], case["k"], case["m"]
    poison = POISON[case["poison"]]
    orders = [tuple(o) for o in case["orders"]]
    no = len(orders)
    MV = gen.build_values(case["v"], gen.shape_of(axs) + (m,))
    P = gen.build_points(axs, case["p"])
    grid = ref.grid_obj(axs)
    MC = MV if k == 1 else ctx.call("filter_cubic", L.filter_cubic, grid, MV)
    tol = np.stack([ref.interpolant(axs, MV, P, k=k, orders=o, mode=mode).tol for o in orders], axis=-1)
    kw = dict(k=k, diff=str(tuple(orders)), extrap_mode=mode)
    if k == 1 and mode == "linear":  # default values
        kw = dict(diff=kw["diff"])
    f = L.eval_spline
    N = len(P)
    w = "eval_spline(diff=%s)" % kw["diff"]
    base = sp.expect_array(w + " mvec", ctx.call(w, f, grid, MC, P, out=None, **kw), (N, m, no))
    allidx = np.arange(N)
    C0 = np.ascontiguousarray(MC[..., 0])
    got = sp.expect_array(w + " vec", ctx.call(w, f, grid, C0, P, out=None, **kw), (N, no))
    same(w + " vec", got, base[:, 0], tol[:, 0], P, allidx)
    out = np.full((N, m, no), poison)
    ctx.call(w, f, grid, MC, P, out=out, **kw)
    same(w + " mvec_out", out, base, tol, P, allidx)
    out = np.full((N, no), poison)
    ctx.call(w, f, grid, C0, P, out=out, **kw)
    same(w + " vec_out", out, base[:, 0], tol[:, 0], P, allidx)
    for i in ([0, N - 1] if N > 1 else range(N)):
        p = P[i].copy()
        idx = np.array([i])
        r = ctx.call(w, f, grid, C0, p, out=None, **kw)
        require(len(r) == no, "%s at one point returned %d numbers for %d derivatives" % (w, len(r), no))
        same(w + " point", np.array([r], dtype=float), base[idx, 0], tol[idx, 0], P, idx)
        out = np.full(no, poison)
        ctx.call(w, f, grid, C0, p, out=out, **kw)
        same(w + " point_out", out[None], base[idx, 0], tol[idx, 0], P, idx)
        r = sp.expect_array(w + " mpoint", ctx.call(w, f, grid, MC, p, out=None, **kw), (m, no))
        same(w + " mpoint", r[None], base[idx], tol[idx], P, idx)
        out = np.full((m, no), poison)
        ctx.call(w, f, grid, MC, p, out=out, **kw)
        same(w + " mpoint_out", out[None], base[idx], tol[idx], P, idx)
        r = ctx.call(w, f, grid, C0, tuple(float(v) for v in p), out=None, **kw)
        same(w + " tuple point", np.array([r], dtype=float), base[idx, 0], tol[idx, 0], P, idx)
    ctx.label("mode " + mode, "k=%d" % k, "%dd" % len(axs), "derivatives", "%s points" % (N if N < 2 else "many"))
    ctx.nontrivial(N > 0 and np.any(base != 0))


@st.composite
def big_points(draw):
    return {"N": draw(st.sampled_from([10007, 33333, 65537, 100003])), "s": draw(st.integers(0, 99999)), "cut": draw(st.integers(200, 3000))}


def large(types, k, m, mode):
    @st.composite
    def s(draw):
        return dict(draw(big_points()), k=k, m=m, mode=mode, axes=draw(gen.axes(types)), v=draw(gen.values()))

    return s


def check_large(case, ctx):
    """a very long list of points against the same points in several shorter lists"""
    L = sp.lib()
    axs, k, m, mode, N = case["axes"], case["k"], case["m"], case["mode"], case["N"]
    V = gen.build_values(case["v"], gen.shape_of(axs) + ((m,) if m else ()))
    r = np.random.RandomState(case["s"])
    a, b = np.array([ref.ax_a(x) for x in axs]), np.array([ref.ax_b(x) for x in axs])
    P = a + (b - a) * r.uniform(-0.2, 1.2, (N, len(axs)))
    grid = ref.grid_obj(axs)
    fn, nm = (L.eval_linear, "eval_linear") if k == 1 else (L.eval_cubic, "eval_cubic")
    C = V if k == 1 else ctx.call("filter_cubic", L.filter_cubic, grid, V)
    f = "mvec" if m else "vec"
    _, got = sp.evaluate(ctx, fn, nm, grid, C, P, f, mode)
    _, into = sp.evaluate(ctx, fn, nm, grid, C, P, f + "_out", mode)
    require(np.array_equal(np.isfinite(got), np.isfinite(into)), lambda: "%s of %d points: the preallocated output is not filled like the returned one" % (nm, N))
    cuts = sorted(set(r.randint(0, N, 4).tolist() + [0, case["cut"], N]))
    # some stretches of the list, among them the first and the last
    spans = list(zip(cuts[:-1], cuts[1:]))
    for lo, hi in spans:
        for i, j in {(lo, min(lo + 700, hi)), (max(hi - 700, lo), hi)}:
            Q = P[i:j].copy()
            _, part = sp.evaluate(ctx, fn, nm, grid, C, Q, f, mode)
            tol = ref.interpolant(axs, V, Q, k=k, mode="linear" if mode == "default" else mode).tol
            idx = np.arange(len(Q))
            same("%s of %d points (entries %d to %d)" % (nm, N, i, j), got[i:j], part, tol, Q, idx)
            same("%s of %d points into a given array (entries %d to %d)" % (nm, N, i, j), into[i:j], part, tol, Q, idx)
    ctx.label("%d points" % N, "k=%d" % k, "m=%s" % m)
    ctx.nontrivial(np.ptp(V) > 0)


def units(tier, seed):
    us = []
    for i, (t, k, m) in enumerate([("u", 1, 0), ("n", 1, 2), ("nu", 1, 0), ("uu", 1, 3), ("u", 3, 0), ("u", 3, 2), ("uu", 3, 0), ("uun", 1, 0)]):
        us.append(Unit("large-k%d-%s-%d" % (k, t, m), large(t, k, m, sp.MODES[(i + seed) % 4]), check_large, quick=6, thorough=60, cost=5 * len(t)))
    M = sp.MODES
    th = tier == "thorough"
    for t in ["u", "n", "uu", "nn", "un", "nu"]:
        for m in M:
            if len(t) == 2 and not th and M.index(m) % 2 != (["uu", "nn", "un", "nu"].index(t) + seed) % 2 and m != "constant":
                continue
            us.append(Unit("lin-%s-%s" % (t, m), strat(t, 1, [m]), check, quick=90, cost=8 * len(t)))
    three = ["uuu", "nnn", "unu", "nun", "uun", "nnu", "unn", "nuu"] if th else ["unu" if seed % 2 else "nuu"]
    for t in three:
        for m in (M if th else [M[seed % 4], M[(seed + 2) % 4]]):
            us.append(Unit("lin-%s-%s" % (t, m), strat(t, 1, [m]), check, quick=60, cost=20))
    for d in (1, 2, 3):
        for m in M:
            if d == 3 and not th and m != M[(seed + 1) % 4]:
                continue
            us.append(Unit("cubic-%dd-%s" % (d, m), strat("u" * d, 3, [m]), check, quick={1: 90, 2: 70, 3: 40}[d], cost=12 * d))
    for k, t, o, m in [
        (1, "u", [[0], [1]], "linear"), (1, "n", [[1], [0], [2]], "constant"), (1, "un", [[0, 1], [1, 0], [0, 0]], "linear"),
        (1, "uu", [[1, 1], [0, 1]], "nearest"), (1, "nn", [[1, 0], [0, 1]], "constant"), (3, "u", [[1], [0]], "linear"),
        (3, "u", [[0], [1]], "constant"), (3, "uu", [[0, 1], [1, 0]], "linear"), (3, "u", [[1]], "nearest"),
        (1, "nuu", [[1, 0, 0], [0, 0, 1]], "linear"),
    ]:
        us.append(Unit("diff-k%d-%s-%s" % (k, t, m), strat(t, k, [m], o), check, quick=30, thorough=200, cost=8 * len(t)))
    # any axes, mode and derivatives (not compiled unless something differs)
    for k in (1, 3):
        for d in (1, 2, 3, 4):
            us.append(source.unit("k%d-%dd" % (k, d), any_strat(d, k), check, quick={1: 250, 2: 250, 3: 120, 4: 60 if k == 1 else 25}[d],
                                  thorough={1: 3000, 2: 3000, 3: 1500, 4: 400}[d], cost=k * d * d))
    return us
