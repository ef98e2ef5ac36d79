import random

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, source, sp
from ..core import Unit, require

RULE = ("each unit fixes a function, grid types and a memory layout for every argument (a fixed core plus combinations drawn from VERIF_SEED); cases: "
        "grid, values, points; the call is compared with the same call on C-ordered copies, all arguments and the memory around strided ones are compared "
        "with their state before; non-trivial: at least one point (or value) and results not all zero")
ASSUMPTIONS = ["'same result' up to rounding: 1e-10 of the sum of |weight*value|"]

# C, Fortran, strided view, read-only, negative strides, block of a larger C-ordered array;
# small letters: the same but read-only
LAYOUTS = ["C", "F", "S", "R", "N", "K", "f", "s", "k"]
# and: last axis stored first, every third number of a larger array
MORE = LAYOUTS + ["P", "p", "M"]
CANARY = -7.123456789e77


class Arg:
    """an array argument in a given layout, with everything around it remembered"""

    def __init__(self, arr, lay):
        arr = np.ascontiguousarray(arr)
        self.lay = lay
        readonly = lay.islower()
        lay = lay.upper()
        self.sel = None
        if lay == "C":
            self.base = arr.copy()
            self.v = self.base
        elif lay == "F":
            self.base = np.array(arr, order="F")
            self.v = self.base
        elif lay == "R":
            self.base = arr.copy()
            self.v = self.base.view()
            self.v.setflags(write=False)
        elif lay == "P":
            self.base = np.ascontiguousarray(np.moveaxis(arr, -1, 0))
            self.v = np.moveaxis(self.base, 0, -1)
        elif lay == "M":  # a view into a field of records
            self.base = np.full(arr.shape + (3,), CANARY)
            self.sel = (slice(None),) * arr.ndim + (1,)
            self.v = self.base[self.sel]
            self.v[...] = arr
        elif lay == "S":
            self.base = np.full(tuple(2 * n + 3 for n in arr.shape), CANARY)
            self.sel = tuple(slice(1, 1 + 2 * n, 2) for n in arr.shape)
            self.v = self.base[self.sel]
            self.v[...] = arr
        elif lay == "K":
            self.base = np.full(tuple(n + 2 for n in arr.shape), CANARY)
            self.sel = tuple(slice(1, 1 + n) for n in arr.shape)
            self.v = self.base[self.sel]
            self.v[...] = arr
        elif lay == "N":
            self.base = np.full(tuple(n + 2 for n in arr.shape), CANARY)
            self.sel = tuple(slice(n, 0, -1) for n in arr.shape)
            self.v = self.base[self.sel]
            self.v[...] = arr
        if readonly:
            self.v = self.v.view()
            self.v.setflags(write=False)
        self.before = self.base.copy()
        self.ref = arr.copy()

    def unchanged(self, what):
        require(np.array_equal(self.base, self.before, equal_nan=True), "%s (layout %s) was modified" % (what, self.lay))

    def result(self, what):
        """for outputs: contents, after checking that nothing around was touched"""
        got = np.array(self.v)
        if self.sel is not None:
            chk, exp = self.base.copy(), self.before.copy()
            chk[self.sel] = 0
            exp[self.sel] = 0
            require(np.array_equal(chk, exp), "%s: memory around the output was written" % what)
        return got


def strat(cfg):
    d = len(cfg["types"])

    @st.composite
    def s(draw):
        return dict(cfg, axes=draw(gen.axes(cfg["types"])), v=draw(gen.values()), m=draw(gen.nvals()),
                    p=draw(gen.points(d, max_bulk=12)))

    return s


def any_strat(d):
    lay = st.sampled_from(LAYOUTS)

    @st.composite
    def s(draw):
        fn = draw(st.sampled_from(["eval_linear", "eval_linear", "eval_cubic", "diff", "filter", "prefilter", "interp", "mlinterp"]))
        k = draw(st.sampled_from([1, 3])) if fn == "diff" else 1
        cubic = fn in ("eval_cubic", "filter", "prefilter") or k == 3
        types = "u" * d if cubic else "".join(draw(st.lists(st.sampled_from("un"), min_size=d, max_size=d)))
        vv = draw(st.booleans()) and fn not in ("interp", "mlinterp")
        lo = draw(st.sampled_from([None, "C", "F", "S", "N", "K"])) if fn in ("eval_linear", "eval_cubic", "diff", "filter") else None
        return draw(strat(dict(fn=fn, types=types, vv=vv, lv=draw(lay), lp=draw(lay), lg=draw(lay), lo=lo, k=k))())

    return s


def mk_grid(axs, lay):
    g, args = [], []
    for ax in axs:
        o = ref.ax_obj(ax)
        if isinstance(o, np.ndarray):
            a = Arg(o, lay)
            args.append(a)
            g.append(a.v)
        else:
            g.append(o)
    return tuple(g), args


def check(case, ctx):
    L = sp.lib()
    import interpolation as I

    axs, fn = case["axes"], case["fn"]
    d = len(axs)
    lv, lp, lg, lo = case["lv"], case["lp"], case["lg"], case["lo"]
    vv = case["vv"]
    m = case["m"]
    V = gen.build_values(case["v"], gen.shape_of(axs) + ((m,) if vv else ()))
    P = gen.build_points(axs, case["p"])
    cgrid = ref.grid_obj(axs)
    grid, gargs = mk_grid(axs, lg)
    what = "%s %s [values %s, points %s, nodes %s, out %s]" % (fn, "".join(a["k"] for a in axs), lv, lp, lg, lo)
    args = []
    if fn in ("eval_linear", "eval_cubic"):
        k = 1 if fn == "eval_linear" else 3
        f = getattr(L, fn)
        C = V if k == 1 else ctx.call("filter_cubic", L.filter_cubic, cgrid, V)
        R = ref.interpolant(axs, V, P, k=k)
        base = ctx.call(fn, f, cgrid, C, P)
        c, p = Arg(C, lv), Arg(P, lp)
        args = [("coefficients", c), ("points", p)]
        if lo is None:
            got = ctx.call(what, f, grid, c.v, p.v)
        else:
            o = Arg(np.full(base.shape, 5.5), lo)
            ctx.call(what, f, grid, c.v, p.v, o.v)
            got = o.result(what)
        tol = R.tol
        # one point, given as a row of the (strided) list of points
        if len(P) and lo is None:
            row = p.v[len(P) // 2]
            g1 = ctx.call(what + " one row", f, grid, c.v, row)
            require(np.all(np.abs(np.asarray(g1) - base[len(P) // 2]) <= tol[len(P) // 2]),
                    lambda: "%s at one point given as a row: %r against %r" % (what, g1, base[len(P) // 2]))
    elif fn == "diff":
        k = case["k"]
        kw = dict(k=k, diff=str(tuple([(0,) * d] + [tuple(int(i == j) for i in range(d)) for j in range(d)])), extrap_mode="linear")
        C = V if k == 1 else ctx.call("filter_cubic", L.filter_cubic, cgrid, V)
        base = ctx.call(fn, L.eval_spline, cgrid, C, P, out=None, **kw)
        tol = np.stack([ref.interpolant(axs, V, P, k=k, orders=o).tol for o in eval(kw["diff"])], axis=-1)
        c, p = Arg(C, lv), Arg(P, lp)
        args = [("coefficients", c), ("points", p)]
        if lo is None:
            got = ctx.call(what, L.eval_spline, grid, c.v, p.v, out=None, **kw)
        else:
            o = Arg(np.full(base.shape, 5.5), lo)
            ctx.call(what, L.eval_spline, grid, c.v, p.v, out=o.v, **kw)
            got = o.result(what)
    elif fn == "filter":
        c = Arg(V, lv)
        args = [("values", c)]
        base = ctx.call(fn, L.filter_cubic, cgrid, V)
        tol = 1e-10 * ref.filter_scale(V, d)
        if lo is None:
            got = ctx.call(what, L.filter_cubic, grid, c.v)
        else:
            o = Arg(np.full(base.shape, 5.5), lo)
            ctx.call(what, L.filter_cubic, grid, c.v, o.v)
            got = o.result(what)
    elif fn == "prefilter":
        c = Arg(V, lv)
        args = [("values", c)]
        base = ctx.call(fn, L.prefilter, cgrid, V, k=3)
        tol = 1e-10 * ref.filter_scale(V, d)
        got = ctx.call(what, L.prefilter, grid, c.v, k=3)
    elif fn == "interp":
        base = ctx.call(fn, I.interp, *(cgrid + (V, P)))
        tol = ref.interpolant(axs, V, P, k=1, mode="nearest").tol
        c, p = Arg(V, lv), Arg(P, lp)
        args = [("values", c), ("points", p)]
        got = ctx.call(what, I.interp, *(grid + (c.v, p.v)))
    elif fn == "mlinterp":
        base = ctx.call(fn, I.mlinterp, cgrid, V, P)
        tol = ref.interpolant(axs, V, P, k=1).tol
        c, p = Arg(V, lv), Arg(P, lp)
        args = [("values", c), ("points", p)]
        got = ctx.call(what, I.mlinterp, grid, c.v, p.v)
    else:
        raise ValueError(fn)
    base = np.asarray(base)
    got = np.asarray(got)
    require(got.shape == base.shape, lambda: "%s returned shape %s, contiguous arguments give %s" % (what, got.shape, base.shape))
    bad = ~((np.abs(got - base) <= tol) | (got == base))
    require(not bad.any(), lambda: "%s: entry %s is %r, with contiguous arguments %r" % (
        what, tuple(np.argwhere(bad)[0]), float(got[bad][0]), float(base[bad][0])))
    for nm, a in args:
        a.unchanged("%s: %s" % (what, nm))
    for a in gargs:
        a.unchanged("%s: nodes" % what)
    ctx.label(fn, "%dd" % d, "values " + lv, "points " + lp, "nodes " + lg, "out %s" % lo)
    ctx.nontrivial(np.any(base != 0))


# ---------------------------------------------------------------- classes and functions of numpy code


CLASSES = ["smolyak", "smolyak-multi", "smolyak-basis", "poly", "poly-der", "fit", "fit-multi", "hermite", "LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines",
           "cheby2n", "cartesian", "mlinspace", "compat-cubic", "compat-G", "compat-linear"]


def class_strat(kinds, lays=None, combos=None, d=None):
    @st.composite
    def s(draw):
        lay = draw(st.sampled_from(combos)) if combos else [draw(st.sampled_from(lays)) for _ in range(4)]
        return {"kind": draw(st.sampled_from(kinds)), "d": draw(st.integers(1, 3)) if d is None else d, "lay": lay, "k": draw(st.integers(1, 3)), "N": draw(st.sampled_from([1, 2, 3, 7, 20])),
                "m": draw(st.integers(1, 3)), "s": draw(st.integers(0, 99999))}

    return s


def class_call(case, call):
    """-> name, arrays, function of the arrays giving a list of results, tolerance relative to their size"""
    import importlib

    kind, d, k, N, m = case["kind"], case["d"], case["k"], case["N"], case["m"]
    r = np.random.RandomState(case["s"])
    U = lambda *sh: np.round(r.uniform(-2, 2, sh), 4)  # noqa: E731
    if kind.startswith("smolyak"):
        SM = importlib.import_module("interpolation.smolyak")
        d += 1
        lb, ub = np.round(r.uniform(-3, 0, d), 3), np.round(r.uniform(1, 3, d), 3)
        if kind == "smolyak-basis":
            return [("points", U(N, d) / 2)], lambda x: [SM.build_B(d, k, x)] + list(SM.build_B(d, k, x, None, True)), 1e-11
        n = len(SM.SmolyakGrid(d, k).grid)
        V = U(n, m) if kind.endswith("multi") else U(n)

        def f(x, V, lb, ub):
            s = SM.SmolyakInterp(SM.SmolyakGrid(d, k, lb=lb, ub=ub), V)
            res = list(s.interpolate(x, deriv=True)) + [s.interpolate(x)]
            s.update_theta(V)
            return res + [s.interpolate(x), s.sg.dom2cube(x), s.sg.cube2dom(x)]

        return [("points", lb + (ub - lb) * r.uniform(0.05, 0.95, (N, d))), ("values", V), ("lb", lb), ("ub", ub)], f, 1e-8
    if kind in ("poly", "poly-der"):
        CP = importlib.import_module("interpolation.complete_poly")
        if kind == "poly":
            return [("points", U(d, N))], lambda z: [CP.complete_polynomial(z, k)] + ([] if N > 1 else [CP.complete_polynomial(z[:, 0], k)]), 1e-13
        return [("points", U(d, N))], lambda z: [CP.complete_polynomial_der(z, k, j) for j in range(d)], 1e-13
    if kind.startswith("fit"):
        CP = importlib.import_module("interpolation.complete_poly")
        n = 3 * CP.n_complete(d, k) + N
        S = r.uniform(-1, 1, (n, d))
        X = U(n, m) if kind.endswith("multi") else U(n)

        def f(S, X, q):
            p = CP.CompletePolynomial(d, k)
            p.fit_values(S, X)
            res = [p(q)] + [p.der(q, j) for j in range(d)]
            p.fit_values(S, X, 0.5)
            return res + [p(q)]

        return [("samples", S), ("values", X), ("points", r.uniform(-1, 1, (N, d)))], f, 1e-8
    if kind == "hermite":
        H = importlib.import_module("interpolation.splines.hermite")
        x = np.cumsum(r.uniform(0.1, 1, k + 2))

        def f(p, x, y, yp):
            return [call("HermiteInterpolationVect", H.HermiteInterpolationVect, p, x, y, yp),
                    np.array([call("HermiteInterpolation", H.HermiteInterpolation, float(q), x, y, yp) for q in p])]

        return [("points", r.uniform(-0.2, x[-1] + 0.2, N)), ("nodes", x), ("values", U(k + 2)), ("slopes", U(k + 2))], f, 1e-12
    n = [int(v) for v in r.randint(2, 6, d)]
    a = np.round(r.uniform(-2, 0, d), 3)
    b = a + np.round(r.uniform(0.5, 3, d), 3)
    P = a + (b - a) * r.uniform(-0.1, 1.1, (N, d))
    if kind.endswith(("Spline", "Splines")):
        L = importlib.import_module("interpolation.splines")
        multi = kind.endswith("s")

        def f(a, b, V, P):
            s = getattr(L, kind)(a, b, n, V)
            res = [s(P), s.interpolate(P), s(P[0])]
            if kind == "CubicSplines":
                res += list(s.interpolate(P, diff=True))
            t = getattr(L, kind)(a, b, n)
            t.set_values(V)
            return res + [t(P)]

        return [("a", a), ("b", b), ("values", U(*(n + [m] if multi else n))), ("points", P)], f, 1e-11
    if kind == "cheby2n":
        SM = importlib.import_module("interpolation.smolyak")
        return [("points", U(*n) / 2)], lambda x: [SM.cheby2n(x, k + 2), SM.cheby2n(x, k, kind=2.0)], 1e-12
    if kind == "cartesian":
        CA = importlib.import_module("interpolation.cartesian")
        return [("nodes %d" % i, U(q)) for i, q in enumerate(n)], lambda *x: [CA.cartesian(list(x)), CA.cartesian(list(x), order="F")], 0.0
    if kind == "mlinspace":
        CA = importlib.import_module("interpolation.cartesian")
        return [("a", a), ("b", b), ("nums", np.array(n, dtype=float))], lambda a, b, c: [CA.mlinspace(a, b, c.astype(int)), CA.mlinspace(a, b, c.astype(int), order="F")], 0.0
    EC = importlib.import_module("interpolation.splines.eval_cubic")
    if kind == "compat-linear":
        g = importlib.import_module("interpolation.splines.multilinear_numba")
        return [("a", a), ("b", b), ("values", U(*n)), ("more values", U(*(n + [m])))], lambda a, b, V, W: [
            call("multilinear_interpolation", g.multilinear_interpolation, a, b, np.array(n), V, P),
            call("vec_multilinear_interpolation", g.vec_multilinear_interpolation, a, b, np.array(n), W, P)], 1e-12
    q = [v + 2 for v in n]
    if kind == "compat-G":
        return [("a", a), ("b", b), ("coefficients", U(*(q + [m]))), ("points", P)], lambda a, b, C, P: list(
            call("vec_eval_cubic_splines_G", EC.vec_eval_cubic_splines_G, a, b, np.array(n), C, P)), 1e-11
    return [("a", a), ("b", b), ("coefficients", U(*q)), ("points", P)], lambda a, b, C, P: [
        call("vec_eval_cubic_spline", EC.vec_eval_cubic_spline, a, b, np.array(n), C, P),
        call("eval_cubic_spline", EC.eval_cubic_spline, a, b, np.array(n), C, P[0])], 1e-11


def check_class(case, ctx):
    numba = case["kind"] in JITTED
    arrays, f, tol = class_call(case, ctx.call if numba else lambda nm, fn, *args: fn(*args))
    what = "%s [%s]" % (case["kind"], ", ".join("%s %s" % (nm, l) for (nm, _), l in zip(arrays, case["lay"])))
    run = (lambda nm, fn, *args: fn(*args)) if numba else ctx.call
    base = run(case["kind"], f, *[a.copy() for _, a in arrays])
    args = [(nm, Arg(a, l)) for (nm, a), l in zip(arrays, case["lay"])]
    got = run(what, f, *[a.v for _, a in args])
    for i, (g, e) in enumerate(zip(got, base)):
        g, e = np.asarray(g), np.asarray(e)
        require(g.shape == e.shape, lambda: "%s: result %d has shape %s, with contiguous arguments %s" % (what, i, g.shape, e.shape))
        t = tol * (1 + np.abs(e).max(initial=0))
        bad = ~(np.abs(g - e) <= t)
        require(not bad.any(), lambda: "%s: result %d, entry %s is %r, with contiguous arguments %r" % (what, i, tuple(np.argwhere(bad)[0]), float(g[bad][0]), float(e[bad][0])))
    for nm, a in args:
        a.unchanged("%s: %s" % (what, nm))
        for i, g in enumerate(got):  # results are not views of the arguments
            if isinstance(g, np.ndarray) and np.shares_memory(g, a.base):
                require(False, "%s: result %d is a view of the argument %s" % (what, i, nm))
    ctx.label(case["kind"], *["%s %s" % (nm.split()[0], l) for (nm, _), l in zip(arrays, case["lay"])])
    ctx.nontrivial(any(l != "C" for l in case["lay"][: len(arrays)]))


JITTED = ["hermite", "compat-cubic", "compat-G", "compat-linear"]
NUMBA = ["hermite", "LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines", "compat-cubic", "compat-G", "compat-linear"]


def configs(tier, seed):
    rnd = random.Random(seed * 104729 + 6)
    out = []

    def add(fn, types, vv=False, lv="C", lp="C", lg="C", lo=None, k=1):
        c = dict(fn=fn, types=types, vv=vv, lv=lv, lp=lp, lg=lg, lo=lo, k=k)
        if c not in out:
            out.append(c)

    for l in ("F", "S", "R"):
        add("eval_linear", "uu", lv=l, lp=l)
        add("eval_linear", "un", vv=True, lv=l, lp="C", lg="S" if l == "S" else "C", lo="F" if l != "R" else None)
        add("eval_cubic", "uu", lv=l, lp=l)
        add("eval_cubic", "u", vv=True, lv=l, lp=l, lo="S" if l == "S" else "F")
        add("filter", "uu", lv=l)
        add("interp", "nn", lv=l, lp=l, lg="R" if l == "R" else "C")
        add("mlinterp", "nu", lv=l, lp=l, lg="S" if l == "S" else "C")
    add("filter", "u", lv="S", lo="S")
    add("filter", "uu", vv=True, lv="F", lo="F")
    add("filter", "uuu", lv="N", lo="S")
    add("filter", "uuu", vv=True, lv="S")
    add("filter", "uuuu", lv="F")
    add("prefilter", "uu", lv="S")
    add("prefilter", "u", lv="R")
    add("eval_linear", "n", lv="N", lp="N", lg="N", lo="N")
    add("eval_linear", "nun", lv="F", lp="S", lg="R")
    add("diff", "un", vv=True, lo="S", lp="F")
    add("diff", "u", k=3, lv="S", lo="F")
    add("diff", "uu", k=3, vv=True, lv="F", lp="R")
    add("interp", "n", lv="S", lp="S", lg="S")
    add("interp", "nun", lv="F", lp="F", lg="S")
    add("mlinterp", "unn", lv="S", lp="F", lg="R")
    add("eval_linear", "uu", lv="s", lp="s")
    add("eval_linear", "nu", vv=True, lv="f", lp="f", lg="s", lo="K")
    add("eval_linear", "u", lv="k", lp="k")
    add("eval_cubic", "uu", lv="s", lp="k")
    add("eval_cubic", "u", vv=True, lv="f", lp="s", lo="N")
    add("diff", "u", k=3, lv="f", lp="f")
    add("filter", "uu", lv="s", lo="K")
    add("interp", "un", lv="s", lp="s", lg="s")
    add("mlinterp", "n", lv="f", lp="f", lg="s")
    want = len(out) + (16 if tier == "quick" else 150)
    while len(out) < want:
        fn = rnd.choice(["eval_linear", "eval_linear", "eval_cubic", "diff", "filter", "prefilter", "interp", "mlinterp"])
        d = rnd.choice([1, 2, 2, 3])
        if fn in ("eval_cubic", "diff") and d == 3 and rnd.random() < 0.8:
            d = 2
        k = 1
        if fn in ("eval_cubic", "filter", "prefilter"):
            types = "u" * d
        else:
            types = "".join(rnd.choice("un") for _ in range(d))
        if fn == "diff" and rnd.random() < 0.4:
            k, types = 3, "u" * d
        vv = rnd.random() < 0.4 and fn not in ("interp", "mlinterp")
        lo = rnd.choice([None, "C", "F", "S", "N", "K"]) if fn in ("eval_linear", "eval_cubic", "diff", "filter") else None
        add(fn, types, vv, rnd.choice(LAYOUTS), rnd.choice(LAYOUTS), rnd.choice(LAYOUTS), lo, k)
    return out


def units(tier, seed):
    us = []
    for i, c in enumerate(configs(tier, seed)):
        name = "%03d-%s%s-%s-%s-v%s-p%s-g%s-o%s" % (i, c["fn"], c["k"], c["types"], "m" if c["vv"] else "s", c["lv"], c["lp"], c["lg"], c["lo"])
        d = len(c["types"])
        us.append(Unit(name, strat(c), check, quick=40, thorough=300,
                       cost=d * (3 if c["fn"] in ("eval_cubic", "diff") else 1)))
    plain = [q for q in CLASSES if q not in NUMBA]
    us.append(Unit("classes", class_strat(plain, MORE), check_class, quick=1200, thorough=12000, cost=3))
    for kind in NUMBA:  # compiled, so that few layouts have to do
        rnd = random.Random(seed * 31 + NUMBA.index(kind))
        if kind in JITTED:
            us.append(source.unit("class-" + kind, class_strat([kind], MORE), check_class, quick=200, thorough=1500, cost=2))
        for i in range(1 if tier == "quick" else 4):
            combos = [[rnd.choice(MORE) for _ in range(4)] for _ in range(2)]
            us.append(Unit("class%d-%s" % (i, kind), class_strat([kind], combos=combos, d=rnd.choice([1, 1, 2, 2, 3])), check_class, quick=25, thorough=150, cost=6))
    # every function and layout (not compiled unless something differs)
    for d in (1, 2, 3, 4):
        us.append(source.unit("any-%dd" % d, any_strat(d), check, quick={4: 100}.get(d, 250), thorough={4: 1000}.get(d, 4000), cost=d * d))
    return us
