import itertools
import random

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, sp
from ..core import Unit, jdump, require

RULE = ("each unit is one generated jitted program (function x way of calling it x grid passed, built inside or frozen into the compiled code x options); "
        "cases: grid, data, points; the program's results are compared with the same calls made from Python; non-trivial: at least one point and results not all zero")
ASSUMPTIONS = ["'same results' up to rounding (the compiler may fuse operations differently after inlining): 1e-10 of the sum of |weight*value|",
               "options of eval_spline inside jitted code are literals given by keyword, as the documentation does, or left out"]

_CACHE = {}


def rand_axes(types, seed):
    r = np.random.RandomState(seed)
    axs = []
    for t in types:
        n = r.randint(2, 7)
        a = round(float(r.uniform(-3, 3)), 3)
        if t == "u":
            axs.append({"k": "u", "a": a, "b": round(a + float(r.uniform(0.3, 5)), 3), "n": int(n)})
        else:
            axs.append({"k": "n", "x": [float(v) for v in np.round(a + np.cumsum(r.uniform(0.1, 2, n)), 3)]})
    return axs


def source(cfg):
    """-> source of the jitted program f(grid, C, P, out) (grid ignored when frozen)"""
    d = len(cfg["types"])
    fn, style, mode = cfg["fn"], cfg["style"], cfg["mode"]
    g = "GRID" if cfg["grid"] == "frozen" else "grid"
    pre = ""
    if cfg["grid"] == "built":
        parts = ["(grid[%d][0], grid[%d][1], grid[%d][2])" % (j, j, j) if t == "u" else "grid[%d]" % j for j, t in enumerate(cfg["types"])]
        pre = "    g2 = (%s,)\n" % ", ".join(parts)
        g = "g2"
    tup = lambda: "(%s,)" % ", ".join("P[i, %d]" % j for j in range(d))  # noqa: E731
    if fn in ("eval_linear", "eval_cubic"):
        mm = "" if mode == "default" else ", OPT.%s" % mode.upper()
        if mode == "argument":
            mm = ", mode"
        call = lambda p, o="": "%s(%s, C, %s%s%s)" % (fn, g, p, o, mm)  # noqa: E731
    elif fn == "eval_spline":
        opts = {"k": "%d" % cfg["k"], "diff": repr(cfg["diff"]), "extrap_mode": repr(mode)}
        if cfg.get("omit"):  # options left out where they have their default value
            opts = {q: v for q, v in opts.items() if v not in ("1", "'None'", "'linear'")}
        opts = "".join(", %s=%s" % z for z in opts.items())
        call = lambda p, o=None: "eval_spline(%s, C, %s%s%s)" % (  # noqa: E731
            g, p, ", out=" + o[2:] if o else "" if cfg.get("omit") else ", out=None", opts)
    elif fn == "mlinterp":
        call = lambda p: "mlinterp(%s, C, %s)" % (g, p)  # noqa: E731
    else:
        axs = ", ".join("%s[%d]" % (g, j) for j in range(d))
        call = lambda p: "interp(%s, C, %s)" % (axs, p)  # noqa: E731
    m = ", mode" if mode == "argument" else ""
    head = "@njit\ndef f(grid, C, P, out%s):\n" % m + pre
    if style == "vec":
        return head + "    return %s\n" % call("P")
    if style == "vec_out":
        return head + "    %s\n    return out\n" % call("P", ", out")
    loop = "    for i in range(P.shape[0]):\n"
    if style == "row":
        return head + loop + "        out[i] = %s\n    return out\n" % call("P[i, :]")
    if style == "row_out":
        return head + loop + "        %s\n    return out\n" % call("P[i, :]", ", out[i]")
    if style == "copyrow":
        return head + loop + "        p = np.empty(%d)\n        for j in range(%d):\n            p[j] = P[i, j]\n        out[i] = %s\n    return out\n" % (
            d, d, call("p"))
    if style == "tuple":
        return head + loop + "        out[i] = %s\n    return out\n" % call(tup())
    if style == "parallel":
        return head.replace("@njit\n", "@njit(parallel=True)\n") + loop.replace("range", "prange") + "        out[i] = %s\n    return out\n" % call(tup())
    if style == "scalars":
        return head + loop + "        out[i] = %s\n    return out\n" % call(tup()[1:-2])
    if style == "multi":  # several outputs of diff at one point
        return head + loop + "        r = %s\n        for j in range(len(r)):\n            out[i, j] = r[j]\n    return out\n" % call(tup() if cfg.get("tup") else "P[i, :]")
    if style == "nested":
        a = ", ".join("x%d" % j for j in range(d))
        inner = "@njit\ndef h(grid, C, %s%s):\n" % (a, m) + pre + "    return %s\n" % call("(%s,)" % a)
        return inner + "@njit\ndef f(grid, C, P, out%s):\n" % m + loop + "        out[i] = h(grid, C, %s%s)\n    return out\n" % (tup()[1:-2], m)
    if style == "twice":  # two different calls of the same function in one program
        return head + "    a = %s\n" % call("P") + loop + "        out[i] = (a[i] + %s) / 2\n    return out\n" % call(tup())
    if style == "guv":
        return ("@guvectorize(['void(%s, float64[:], float64[:])'], '(%s),(q)->()', nopython=True)\ndef f(C, p, o):\n    o[0] = %s\n" % (
            "float64[%s]" % ",".join([":"] * d), ",".join("abcd"[:d]), call("p")))
    raise ValueError(style)


def compiled(cfg, axs):
    key = jdump([cfg, axs if cfg["grid"] == "frozen" else None])
    if key not in _CACHE:
        from numba import guvectorize, njit, prange
        import interpolation as I

        L = sp.lib()
        ns = dict(njit=njit, prange=prange, guvectorize=guvectorize, np=np, GRID=ref.grid_obj(axs), OPT=L.extrap_options, eval_linear=L.eval_linear,
                  eval_cubic=L.eval_cubic, eval_spline=L.eval_spline, interp=I.interp, mlinterp=I.mlinterp)
        exec(source(cfg), ns)
        _CACHE[key] = ns["f"]
    return _CACHE[key]


def strat(cfg):
    d = len(cfg["types"])

    @st.composite
    def s(draw):
        axs = cfg["axes"] if cfg["grid"] == "frozen" else draw(gen.axes(cfg["types"]))
        return {"cfg": cfg, "axes": axs, "v": draw(gen.values()), "m": draw(gen.nvals()), "p": draw(gen.points(d, max_bulk=8))}

    return s


def check(case, ctx):
    import interpolation as I

    L = sp.lib()
    cfg, axs = case["cfg"], case["axes"]
    fn, mode, style = cfg["fn"], cfg["mode"], cfg["style"]
    k = cfg["k"]
    vv = cfg.get("vv", False)
    grid = ref.grid_obj(axs)
    V = gen.build_values(case["v"], gen.shape_of(axs) + ((case["m"],) if vv else ()))
    P = gen.build_points(axs, case["p"])
    N = len(P)
    m = (case["m"],) if vv else ()
    C = V if k == 1 else ctx.call("filter_cubic", L.filter_cubic, grid, V)
    modes = ["linear", "nearest", "constant"] if mode == "argument" else [mode]
    mode = modes[case["v"][1] % len(modes)]
    orders = [tuple(o) for o in cfg["orders"]] if cfg.get("orders") else None
    no = (len(orders),) if orders else ()
    # the same thing from Python
    if fn in ("eval_linear", "eval_cubic"):
        extra = () if mode == "default" else (sp.opt(mode),)
        exp = ctx.call(fn, getattr(L, fn), grid, C, P, *extra)
    elif fn == "eval_spline":
        exp = ctx.call(fn, L.eval_spline, grid, C, P, out=None, k=k, diff=cfg["diff"], extrap_mode=mode)
    elif fn == "mlinterp":
        exp = ctx.call(fn, I.mlinterp, grid, C, P)
    else:
        exp = ctx.call(fn, I.interp, *(grid + (C, P)))
    md = {"default": "linear"}.get(mode, mode)
    if fn == "interp":
        md = "nearest"
    tol = np.stack([ref.interpolant(axs, V, P, k=k, orders=o, mode=md).tol for o in orders], axis=-1) if orders else ref.interpolant(axs, V, P, k=k, mode=md).tol
    what = "jitted %s, style %s, grid %s, mode %s" % (fn, style, cfg["grid"], cfg["mode"])

    def run():
        f = compiled(cfg, axs)
        out = np.full((N,) + m + no, 7.25)
        if style == "guv":
            return f(C, P)
        if cfg["mode"] == "argument":
            return f(grid, C, P, out, sp.opt(mode))
        return f(grid, C, P, out)

    got = ctx.call(what, run)
    sp.expect_array(what, got, exp.shape)
    bad = ~((np.abs(got - exp) <= tol) | (got == exp))
    require(not bad.any(), lambda: "%s: point %s: %r inside, %r outside jitted code" % (
        what, P[np.argwhere(bad)[0][0]].tolist(), float(got[bad][0]), float(exp[bad][0])))
    gen.label_points(ctx, axs, P)
    ctx.label("function " + fn, "style " + style, "grid " + cfg["grid"], "mode " + cfg["mode"])
    ctx.nontrivial(N > 0 and np.any(exp != 0))


# ---------------------------------------------------------------- filtering inside


def strat_f(cfg):
    @st.composite
    def s(draw):
        return {"cfg": cfg, "axes": draw(gen.axes("u" * cfg["d"])), "v": draw(gen.values()), "m": draw(gen.nvals())}

    return s


FSRC = {
    "filter_cubic": "@njit\ndef f(grid, V, out):\n    return filter_cubic(grid, V)\n",
    "filter_cubic_out": "@njit\ndef f(grid, V, out):\n    filter_cubic(grid, V, out)\n    return out\n",
    "prefilter3": "@njit\ndef f(grid, V, out):\n    return prefilter(grid, V, k=3)\n",
    "prefilter3_out": "@njit\ndef f(grid, V, out):\n    prefilter(grid, V, out=out, k=3)\n    return out\n",
    "prefilter1": "@njit\ndef f(grid, V, out):\n    return prefilter(grid, V, k=1)\n",
}


def check_f(case, ctx):
    L = sp.lib()
    cfg, axs = case["cfg"], case["axes"]
    name, d = cfg["name"], cfg["d"]
    grid = ref.grid_obj(axs)
    V = gen.build_values(case["v"], gen.shape_of(axs) + ((case["m"],) if cfg["vv"] else ()))
    what = "jitted %s %dd" % (name, d)

    def run():
        if name not in _CACHE:
            from numba import njit

            ns = dict(njit=njit, filter_cubic=L.filter_cubic, prefilter=L.prefilter)
            exec(FSRC[name], ns)
            _CACHE[name] = ns["f"]
        shp = tuple(n + 2 for n in V.shape[:d]) + V.shape[d:]
        return _CACHE[name](grid, V, np.full(shp, np.nan))

    got = ctx.call(what, run)
    if name == "prefilter1":
        exp, tol = V, 0.0
    else:
        exp = ctx.call("filter_cubic", L.filter_cubic, grid, V)
        tol = 1e-10 * ref.filter_scale(V, d)
    sp.expect_array(what, got, exp.shape)
    require(np.all(np.abs(got - exp) <= tol), lambda: "%s differs from the call outside jitted code by %g" % (what, np.abs(got - exp).max()))
    ctx.label("function " + name, "vector values" if cfg["vv"] else "scalar values")
    ctx.nontrivial(np.ptp(V) > 0)


# ---------------------------------------------------------------- hermite inside


def strat_h(style):
    @st.composite
    def s(draw):
        return {"style": style, "ax": draw(gen.axes("n"))[0], "v": draw(gen.values()), "w": draw(gen.values()), "p": draw(gen.points(1, max_bulk=10)),
                "q": draw(st.integers(1, 3))}

    return s


HSRC = "@njit\ndef f(x0, x, y, yp):\n    return hermite(x0, x, y, yp)\n"


def check_h(case, ctx):
    from interpolation.splines import hermite as H

    if "hermite" not in _CACHE:
        from numba import njit

        ns = dict(njit=njit, hermite=H.hermite)
        exec(HSRC, ns)
        _CACHE["hermite"] = ns["f"]
    f = _CACHE["hermite"]
    ax = case["ax"]
    x = ref.ax_nodes(ax)
    y, yp = gen.build_values(case["v"], x.shape), gen.build_values(case["w"], x.shape)
    P = gen.build_points([ax], case["p"])[:, 0].copy()
    style = case["style"]
    exp = np.array([ctx.call("HermiteInterpolation", H.HermiteInterpolation, float(p), x, y, yp) for p in P], dtype=float)
    what = "jitted hermite " + style
    if style == "scalar":
        got = np.array([sp.expect_scalar(what, ctx.call(what, f, float(p), x, y, yp)) for p in P], dtype=float)
    elif style == "vector":
        got = sp.expect_array(what, ctx.call(what, f, P, x, y, yp), exp.shape)
    else:
        Q = np.full((len(P), case["q"]), np.nan)
        Q[:, 0] = P
        got = sp.expect_array(what, ctx.call(what, f, Q, x, y, yp), exp.shape)
    sc = 1e-10 * (np.abs(y).max() + np.abs(yp).max() * np.diff(x).max()) + 1e-290
    cond = 1 + ref.EPS * 1e10 * float(np.max(ref.conditioning(ax, np.clip(P, x[0], x[-1])), initial=0))
    require(np.all(np.abs(got - exp) <= sc * cond), lambda: "%s differs from HermiteInterpolation: %s against %s" % (what, got.tolist(), exp.tolist()))
    gen.label_points(ctx, [ax], P[:, None])
    ctx.label("function hermite", "style " + style)
    ctx.nontrivial(len(P) > 0 and np.ptp(y) > 0)


def programs(rnd, tier):
    """all program shapes, in a random order"""
    out = []
    for d in (1, 2, 3):
        for types in ["".join(c) for c in itertools.product("un", repeat=d)]:
            for grid in ("arg", "frozen", "built"):
                for mode in ("default", "linear", "nearest", "constant", "argument"):
                    for style in ("vec", "vec_out", "row", "copyrow", "tuple", "nested", "twice", "guv", "parallel"):
                        if style in ("guv", "parallel") and (grid != "frozen" or mode == "argument"):
                            continue
                        out.append(dict(fn="eval_linear", k=1, types=types, grid=grid, mode=mode, style=style))
                        if "n" not in types:
                            out.append(dict(fn="eval_cubic", k=3, types=types, grid=grid, mode=mode, style=style))
                    for style in ("vec", "vec_out", "row", "row_out"):
                        out.append(dict(fn="eval_linear", k=1, types=types, grid=grid, mode=mode, style=style, vv=True))
                        if "n" not in types:
                            out.append(dict(fn="eval_cubic", k=3, types=types, grid=grid, mode=mode, style=style, vv=True))
                for mode in ("linear", "nearest", "constant"):
                    allo = [list(o) for o in itertools.product((0, 1), repeat=d)]
                    rnd.shuffle(allo)
                    orders = allo[: rnd.randint(1, min(3, len(allo)))]
                    diff = str(tuple(tuple(o) for o in orders))
                    for style in ("vec", "vec_out", "multi"):
                        for k in (1, 3):
                            if k == 3 and "n" in types:
                                continue
                            out.append(dict(fn="eval_spline", k=k, types=types, grid=grid, mode=mode, style=style, orders=orders, diff=diff,
                                            tup=style == "multi" and rnd.random() < 0.5))
                            out.append(dict(fn="eval_spline", k=k, types=types, grid=grid, mode=mode, style=rnd.choice(["vec", "row", "tuple"]), diff="None"))
                            out.append(dict(fn="eval_spline", k=k, types=types, grid=grid, mode=mode, style=rnd.choice(["vec", "row", "tuple", "vec_out"]),
                                            diff="None", omit=True))
                for style in ("vec", "tuple", "nested") + (("parallel",) if grid == "frozen" else ()):
                    out.append(dict(fn="mlinterp", k=1, types=types, grid=grid, mode="default", style=style))
                for style in ("vec", "tuple", "scalars", "nested") + (("row", "copyrow") if d > 1 else ()):
                    out.append(dict(fn="interp", k=1, types=types, grid=grid, mode="default", style=style))
    rnd.shuffle(out)
    return out


def units(tier, seed):
    rnd = random.Random(seed * 131 + 13)
    allp = programs(rnd, tier)
    # spread over functions, numbers of dimensions and grid kinds
    seen, pick = {}, []
    per = {"quick": {1: 3, 2: 3, 3: 1}, "thorough": {1: 30, 2: 36, 3: 24}}[tier]
    for p in allp:
        d = len(p["types"])
        key = (p["fn"], p["grid"], d, bool(p.get("vv")), bool(p.get("orders")), bool(p.get("omit")))
        if seen.get(key, 0) < per[d]:
            if tier == "quick" and d == 3 and (p["k"] == 3 or p["grid"] == "built"):
                continue
            seen[key] = seen.get(key, 0) + 1
            pick.append(p)
    us = []
    for n, p in enumerate(pick):
        if p["grid"] == "frozen":
            p["axes"] = rand_axes(p["types"], seed * 1000 + n)
        us.append(Unit("prog%03d-%s-%s-%s-%s-%s%s" % (n, p["fn"], p["types"], p["style"], p["grid"], p["mode"], "-vv" if p.get("vv") else ""),
                       strat(p), check, quick=25, thorough=200, cost=(2 if p["k"] == 1 else 4) * len(p["types"])))
    for name in FSRC:
        for d in (1, 2, 3):
            for vv in (False, True):
                us.append(Unit("%s-%dd%s" % (name, d, "-vv" if vv else ""), strat_f(dict(name=name, d=d, vv=vv)), check_f, quick=40, cost=2))
    for style in ("scalar", "vector", "matrix"):
        us.append(Unit("hermite-" + style, strat_h(style), check_h, quick=150, cost=3))
    return us
