import itertools
import random

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref
from ..core import Unit, require

RULE = ("each unit is one generated jitted program that calls a helper on tuples of generated types (grids of every mix of axes, tuples of integers, floats, booleans, "
        "arrays and tuples); cases are the numbers; results are compared with the definition in Python; non-trivial: two or more elements (axes)")
ASSUMPTIONS = ["get_index at a node may name the cell on either side", "floating point results to 1e-12 of the sum of the magnitudes that enter"]

INT = st.integers(-1000, 1000)
FLT = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 1e-3, 250.0]), st.floats(-1e6, 1e6, allow_nan=False))


def program(src, **names):
    import numba

    d = dict(names, njit=numba.njit, np=np)
    exec(src, d)
    return d["f"]


def lazy(make):
    box = []

    def get():
        if not box:
            box.append(make())
        return box[0]

    return get


# ---------------------------------------------------------------- fmap, funzip


def element(t):
    if t == "i":
        return INT
    if t == "f":
        return FLT
    if t == "b":
        return st.booleans()
    if t == "a":
        return st.lists(FLT, min_size=1, max_size=4)
    return st.tuples(INT, FLT).map(list)  # "t"


def value(t, v):
    return np.array(v, dtype=float) if t == "a" else (v[0], v[1]) if t == "t" else v


FUN1 = {
    "twice": ("x * 2 + 1", lambda x: x * 2 + 1, "if"),
    "pair": ("(x, x + 0.5)", lambda x: (x, x + 0.5), "if"),
    "floor": ("int(x // 3)", lambda x: int(x // 3), "if"),
    "size": ("x.shape[0]", lambda x: x.shape[0], "a"),
    "total": ("x.sum()", lambda x: x.sum(), "a"),
    "second": ("x[1]", lambda x: x[1], "t"),
    "swap": ("(x[1], x[0])", lambda x: (x[1], x[0]), "t"),
    "same": ("x", lambda x: x, "ifbat"),
}
FUN2 = {
    "minus": ("x - 2 * y", lambda x, y: x - 2 * y, "if", "if"),
    "both": ("(x, y)", lambda x, y: (x, y), "ifbt", "ifbt"),
    "first": ("x", lambda x, y: x, "ift", "ifbat"),
    "second": ("y", lambda x, y: y, "ifbat", "if"),
    "pick": ("x[y % x.shape[0]]", lambda x, y: x[y % x.shape[0]], "a", "i"),
    "scale": ("x[1] * y - x[0]", lambda x, y: x[1] * y - x[0], "t", "if"),
}


def eq(got, exp):
    if isinstance(exp, tuple):
        return isinstance(got, tuple) and len(got) == len(exp) and all(eq(a, b) for a, b in zip(got, exp))
    if isinstance(exp, np.ndarray):
        return isinstance(got, np.ndarray) and np.array_equal(got, exp)
    if isinstance(exp, (bool, np.bool_)):
        return bool(got) == bool(exp)
    if isinstance(exp, (int, np.integer)):
        return isinstance(got, (int, np.integer)) and got == exp
    return isinstance(got, float) and abs(got - exp) <= 1e-12 * (1 + abs(exp))


def map_unit(rnd, k):
    """one program fmap(fun, t), fmap(fun, t1, t2) or fmap(fun, t, x) for given types"""
    n = rnd.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
    kind = rnd.choice(["one", "two", "two", "common", "common"])
    if kind == "one":
        name = rnd.choice(sorted(FUN1))
        src, fun, ty = FUN1[name]
        t1, t2 = "".join(rnd.choice(ty) for _ in range(n)), None
    else:
        name = rnd.choice(sorted(FUN2))
        src, fun, ta, tb = FUN2[name]
        t1 = "".join(rnd.choice(ta) for _ in range(n))
        if kind == "common":
            tb = tb.replace("t", "") or "i"  # a tuple would be taken element by element
        t2 = "".join(rnd.choice(tb) for _ in range(n if kind == "two" else 1))
    args = "x" if kind == "one" else "x, y"
    text = "@njit\ndef g(%s): return %s\n" % (args, src)
    text += "@njit\ndef f(%s): return fmap(g, %s)\n" % (("t", "t") if kind == "one" else ("t, u", "t, u"))

    def make():
        from interpolation.multilinear.fungen import fmap

        return program(text, fmap=fmap)

    prog = lazy(make)

    def strat():
        return st.tuples(st.tuples(*map(element, t1)).map(list), st.tuples(*map(element, t2 or "")).map(list)).map(list)

    def check(case, ctx):
        a = tuple(value(t, v) for t, v in zip(t1, case[0]))
        what = "fmap(%s, %s%s)" % (name, t1, "" if kind == "one" else ", " + t2 if kind == "two" else ", common " + t2)
        if kind == "one":
            got, exp = ctx.call(what, prog(), a), tuple(fun(x) for x in a)
        else:
            b = tuple(value(t, v) for t, v in zip(t2, case[1]))
            if kind == "two":
                got, exp = ctx.call(what, prog(), a, b), tuple(fun(x, y) for x, y in zip(a, b))
            else:
                got, exp = ctx.call(what, prog(), a, b[0]), tuple(fun(x, b[0]) for x in a)
        require(eq(got, exp), lambda: "%s of %s returned %r, expected %r" % (what, case, got, exp))
        ctx.label("fmap " + kind, "%d elements" % n)
        ctx.nontrivial(n > 1)

    return Unit("fmap-%d-%s-%s%s" % (k, name, t1, "-" + t2 if t2 else ""), strat, check, quick=60, thorough=600, cost=2)


def zip_unit(rnd, k):
    # every other unit is square: only there the transpose has the shape of the argument
    n, m = rnd.choice([1, 2, 3, 4, 5]), rnd.choice([1, 2, 2, 3, 4])
    if k % 2 == 0:
        n = m = 2 + k // 2 % 4
    inner = "".join(rnd.choice("ifba") for _ in range(m))  # the type of each column
    same = rnd.random() < 0.5
    types = [inner if same else "".join(rnd.choice("ifb") for _ in range(m)) for _ in range(n)]

    def make():
        from interpolation.multilinear.fungen import funzip

        return program("@njit\ndef f(t): return funzip(t)\n", funzip=funzip)

    prog = lazy(make)

    def strat():
        return st.tuples(*[st.tuples(*map(element, t)).map(list) for t in types]).map(list)

    def check(case, ctx):
        a = tuple(tuple(value(t, v) for t, v in zip(ty, row)) for ty, row in zip(types, case))
        got = ctx.call("funzip of %s" % types, prog(), a)
        exp = tuple(zip(*a))
        require(eq(got, exp), lambda: "funzip of %s returned %r, expected %r" % (a, got, exp))
        ctx.label("funzip %d x %d" % (n, m))
        ctx.nontrivial(n > 1 and m > 1)

    return Unit("funzip-%d-%s" % (k, "-".join(types)), strat, check, quick=60, thorough=600, cost=2)


def reject_unit(rnd, k):
    """two tuples of different lengths, or no tuple at all"""
    n = rnd.randint(1, 5)
    m = rnd.choice([q for q in range(1, 7) if q != n])
    kind = rnd.choice(["lengths", "lengths", "no tuple"])
    t1, t2 = "".join(rnd.choice("if") for _ in range(n)), "".join(rnd.choice("if") for _ in range(m))
    text = "@njit\ndef g(x, y): return x - 2 * y\n@njit\ndef f(t, u): return fmap(g, t, u)\n"

    def make():
        from interpolation.multilinear.fungen import fmap

        return program(text, fmap=fmap)

    prog = lazy(make)

    def strat():
        return st.tuples(st.tuples(*map(element, t1)).map(list), st.tuples(*map(element, t2)).map(list)).map(list)

    def check(case, ctx):
        a, b = tuple(case[0]), tuple(case[1])
        if kind == "no tuple":
            a = a[0]
            b = b[0] if n % 2 else b
        ctx.rejects("fmap(g, %r, %r)" % (a, b), prog(), a, b)
        ctx.label("rejected: " + kind)
        ctx.nontrivial()

    return Unit("reject-%d-%s-%s-%s" % (k, kind[:2], t1, t2), strat, check, quick=3, thorough=20, cost=2)


# ---------------------------------------------------------------- grids


def grid_unit(types, seed):
    """index, size, projection, corners and contraction for one mix of axes"""
    d = len(types)
    text = """
@njit
def index(grid, point): return fmap(get_index, grid, point)
@njit
def size(grid): return fmap(get_size, grid)
@njit
def closest(grid, point): return project(grid, point)
@njit
def corners(X, I): return get_coeffs(X, I)
@njit
def contract(C, l): return tensor_reduction(C, l)
@njit
def row(a, n, tup): return extract_row(a, n, tup)
@njit
def whole(grid, X, point):
    b, l = funzip(fmap(get_index, grid, point))
    return tensor_reduction(get_coeffs(X, b), l)
def f(): return index, size, closest, corners, contract, row, whole
"""

    def make():
        from interpolation.multilinear import fungen as F

        names = {k: getattr(F, k) for k in ("get_index", "get_size", "project", "get_coeffs", "tensor_reduction", "extract_row", "funzip", "fmap")}
        return program(text, **names)()

    prog = lazy(make)

    @st.composite
    def s(draw):
        axs = draw(gen.axes(types))
        return {"axes": axs, "v": draw(gen.values()), "p": draw(gen.points(d, max_bulk=12)), "far": draw(gen.farther()), "order": draw(st.sampled_from("CF")),
                "i": draw(st.integers(0, 9999))}

    def check(case, ctx):
        index, size, closest, corners, contract, row, whole = prog()
        axs = case["axes"]
        shape = gen.shape_of(axs)
        grid = ref.grid_obj(axs)
        X = np.array(gen.build_values(case["v"], shape), order=case["order"])
        P = gen.build_points(axs, case["p"])
        nodes = [ref.ax_nodes(a) for a in axs]
        lo, hi = np.array([g[0] for g in nodes]), np.array([g[-1] for g in nodes])
        got = ctx.call("get_size", size, grid)
        require(eq(got, tuple(shape)), lambda: "sizes of a grid of shape %s: %r" % (shape, got))
        for i, p in enumerate(P[:12]):
            pt = tuple(float(v) for v in p)
            res = ctx.call("get_index", index, grid, pt)
            require(len(res) == d, "get_index of a point of dimension %d: %r" % (d, res))
            for j, (q, lam) in enumerate(res):
                g, x = nodes[j], pt[j]
                n = len(g)
                require(isinstance(q, (int, np.integer)) and 0 <= q <= n - 2, lambda: "get_index along axis %d (%s) of %r: cell %r of %d" % (j, types[j], x, q, n - 1))
                h = g[q + 1] - g[q]
                mag = abs(g[0]) + abs(g[-1]) + abs(x)
                tol = 64 * ref.EPS * mag * (1 + abs(lam))  # nodes and cell widths carry the rounding of the bounds
                require(abs(g[q] + lam * h - x) <= tol + 1e-12 * abs(lam) * h, lambda: "get_index along axis %d (%s) of %r: cell %d and weight %r mean %r" % (
                    j, types[j], x, q, lam, g[q] + lam * h))
                if g[0] <= x <= g[-1]:
                    require(-tol <= lam * h <= h + tol, lambda: "get_index along axis %d (%s) of %r: weight %r in cell %d" % (j, types[j], x, lam, q))
                else:
                    require(q == (0 if x < g[0] else n - 2), lambda: "get_index along axis %d (%s) of %r outside of [%r, %r]: cell %d of %d" % (
                        j, types[j], x, g[0], g[-1], q, n - 1))
        for p in gen.push(P, case["far"], ctx)[:8]:
            pt = tuple(float(v) for v in p)
            got = ctx.call("project", closest, grid, pt)
            exp = tuple(float(v) for v in np.minimum(np.maximum(p, lo), hi))
            require(isinstance(got, tuple) and got == exp, lambda: "project of %s onto [%s, %s]: %s" % (pt, lo.tolist(), hi.tolist(), got))
        r = np.random.RandomState(case["i"])
        I = tuple(int(r.randint(0, n - 1)) for n in shape)
        C = ctx.call("get_coeffs", corners, X, I)
        for e in itertools.product((0, 1), repeat=d):
            c = C
            for q in e:
                require(isinstance(c, tuple) and len(c) == 2, lambda: "get_coeffs of a %dd array returned %r" % (d, C))
                c = c[q]
            require(c == X[tuple(a + b for a, b in zip(I, e))], lambda: "get_coeffs at %s, corner %s: %r, expected %r" % (I, e, c, X[tuple(a + b for a, b in zip(I, e))]))
        lam = tuple(float(v) for v in r.choice([0.0, 1.0, 0.25, -0.5, 1.5, r.uniform()], d))
        w = np.array([np.prod([l if q else 1 - l for l, q in zip(lam, e)]) for e in itertools.product((0, 1), repeat=d)])
        v = np.array([X[tuple(a + b for a, b in zip(I, e))] for e in itertools.product((0, 1), repeat=d)])
        got = ctx.call("tensor_reduction", contract, C, lam)
        require(abs(got - w @ v) <= 1e-12 * (np.abs(w) @ np.abs(v)) + 1e-290, lambda: "tensor_reduction of %s with %s: %r, expected %r" % (C, lam, got, w @ v))
        if len(P):
            i = case["i"] % len(P)
            wide = np.hstack([P, r.uniform(-1, 1, (len(P), case["i"] % 2))])
            got = ctx.call("extract_row", row, wide if case["order"] == "C" else np.asfortranarray(wide), i, (1.0,) * d)
            require(isinstance(got, tuple) and got == tuple(P[i]), lambda: "extract_row %d of %s: %s" % (i, P.shape, got))
            R = ref.interpolant(axs, X, P[:8], k=1, mode="linear")
            val = np.array([ctx.call("interpolation with the helpers", whole, grid, X, tuple(float(q) for q in p)) for p in P[:8]])
            ok = np.zeros(len(val), dtype=bool)
            for a in R.alts:
                ok |= np.abs(val - a) <= R.tol
            require(bool(ok.all()), lambda: "get_index, get_coeffs and tensor_reduction at %s: %r, expected %r" % (
                P[:8][~ok][0].tolist(), float(val[~ok][0]), float(R.alts[0][~ok][0])))
        ctx.label("%dd" % d, *(["uniform axes"] if "u" in types else []), *(["axes by nodes"] if "n" in types else []))
        gen.label_points(ctx, axs, P)
        ctx.nontrivial(d > 1 and len(P) > 0)

    return Unit("grid-" + types, s, check, quick=150, thorough=2500, cost=4 + 2 * d)


def check_clamp(case, ctx):
    from interpolation.multilinear.fungen import clamp

    x, a, w, how = case
    b = a + abs(w)
    if how:
        x, a, b = float(x), float(a), float(b)
    got = ctx.call("clamp", clamp, x, a, b)
    exp = a if x < a else b if x > b else x
    require(got == exp and isinstance(got, float) == how, lambda: "clamp(%r, %r, %r) = %r" % (x, a, b, got))
    ctx.nontrivial(not a <= x <= b)


def units(tier, seed):
    rnd = random.Random(seed + 30)
    big = tier != "quick"
    us = [map_unit(rnd, k) for k in range(60 if big else 16)] + [zip_unit(rnd, k) for k in range(30 if big else 8)] + [
        reject_unit(rnd, k) for k in range(20 if big else 5)]
    for d in (1, 2, 3, 4, 5):
        combos = ["".join(c) for c in itertools.product("un", repeat=d)]
        if not big and d > 2 or d == 5:
            combos = ["u" * d, "n" * d] + rnd.sample([c for c in combos if len(set(c)) > 1], 2)
        us += [grid_unit(c, seed) for c in combos]
    us.append(Unit("clamp", lambda: st.tuples(INT, INT, INT, st.booleans()).map(list), check_clamp, quick=300, cost=1))
    return us
