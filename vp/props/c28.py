from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, sp
from ..core import Unit, require

RULE = ("cases: one thing that is not supported (spline order, extrapolation mode, derivative, nonuniform axis, number of dimensions, number of coordinates, number of "
        "values) in an otherwise valid call, made from Python or from jitted code, between supported calls; it has to raise, and the supported calls have to return "
        "the right numbers; non-trivial: the unsupported call was made")
ASSUMPTIONS = ["which exception is raised is free", "lists of points with too many or too few columns are only judged for spline objects and Smolyak interpolation "
               "(evaluators do not check them), sizes of arrays only where the functions check them"]

MODES_BAD = ["foo", "Nearest", "LINEAR", "near", "", "nearest ", "none", "None", "const", "cubic", "linear_", "constants", "flat", "extrapolate"]
ORDERS_BAD = [0, 2, 4, 5, 6, 7, -1, -3, 13, 30, 100]
OPTS_BAD = ["nearest", "constant", "linear", "foo", 0, 1, 3, True, 2.5, (), (None,), ((None,),), ((None,), (None,) * 4), ((None,) * 2, (None,)), ("nearest",)]


def arrays(case):
    axs = case["axes"]
    d = len(axs)
    r = np.random.RandomState(case["s"])
    V = r.uniform(-1, 1, gen.shape_of(axs) + ((2,) if case["vec"] else ()))
    P = np.array([[ref.ax_a(a) + (ref.ax_b(a) - ref.ax_a(a)) * u for a, u in zip(axs, r.uniform(0.02, 0.98, d))] for _ in range(3)])
    return axs, d, r, V, P


def jitted(n):
    import numba

    ns = {}
    a = ",".join("a%d" % i for i in range(n))

    def make(f, consts=""):
        # compile-time constants are written into the program
        exec("def g(%s):\n    return f(%s%s)\n" % (a, a, consts), {"f": f}, ns)
        return numba.njit(ns["g"])

    return make


def caller(case, fn, args, kw=None):
    """the call as a thunk, from Python or inside a jitted function"""
    kw = kw or {}
    if not case["jit"]:
        return lambda: fn(*args, **kw)
    consts = "".join(", %s=%r" % q for q in kw.items())
    return lambda: jitted(len(args))(fn, consts)(*args)


@st.composite
def spline_cases(draw):
    kind = draw(st.sampled_from(["order", "order", "mode", "mode", "option", "nonuniform", "nonuniform", "few dims", "many dims", "few coords", "deriv", "deriv", "prefilter"]))
    d = draw(st.sampled_from([1, 1, 2, 2, 3]))
    types = "".join(draw(st.lists(st.sampled_from("uun"), min_size=d, max_size=d)))
    if kind == "nonuniform" and "n" not in types:
        j = draw(st.integers(0, d - 1))
        types = types[:j] + "n" + types[j + 1:]
    if kind == "deriv":
        types = draw(st.sampled_from([types, "u" * d]))
    c = {"kind": kind, "axes": draw(gen.axes(types, large=False)), "s": draw(st.integers(0, 9999)), "vec": draw(st.booleans()), "jit": draw(st.sampled_from([False, False, True])),
         "form": draw(st.sampled_from(["P", "p", "t", "out"])), "after": draw(st.booleans())}
    if kind == "order":
        c["k"] = draw(st.sampled_from(ORDERS_BAD))
        c["mode"] = draw(st.sampled_from(["linear", "nearest", "constant"]))
        c["diff"] = draw(st.booleans())
    elif kind == "prefilter":
        c["k"] = draw(st.sampled_from(ORDERS_BAD))
        c["vec"] = False
    elif kind == "mode":
        c["mode"] = draw(st.sampled_from(MODES_BAD))
        c["k"] = draw(st.sampled_from([1, 3])) if "n" not in types else 1
        c["diff"] = draw(st.booleans())
    elif kind == "option":
        c["o"] = draw(st.integers(0, len(OPTS_BAD) - 1))
        c["fn"] = draw(st.sampled_from(["eval_linear", "eval_cubic"])) if "n" not in types else "eval_linear"
    elif kind == "nonuniform":
        c["fn"] = draw(st.sampled_from(["eval_cubic", "eval_spline"]))
        c["mode"] = draw(st.sampled_from(["linear", "nearest", "constant", "default"]))
        c["diff"] = draw(st.booleans())
    elif kind in ("few dims", "many dims"):
        c["fn"] = draw(st.sampled_from(["eval_linear", "eval_spline", "mlinterp", "interp"] + (["eval_cubic", "filter_cubic", "prefilter"] if "n" not in types else [])))
        c["mode"] = draw(st.sampled_from(["linear", "nearest", "constant", "default"]))
        c["more"] = draw(st.integers(1, 2))
        if kind == "many dims" and c["fn"] in ("eval_linear", "eval_cubic", "eval_spline"):
            c["form"] = "P"  # one point of matrix-valued data is a matrix
    elif kind == "few coords":
        if d == 1:
            c["axes"] = draw(gen.axes(types * 2, large=False))
        c["form"] = "t"
        c["fn"] = draw(st.sampled_from(["eval_linear", "eval_spline", "mlinterp", "mlinterp more", "interp"] + (["eval_cubic"] if "n" not in types else [])))
        c["mode"] = draw(st.sampled_from(["linear", "nearest", "constant", "default"]))
    elif kind == "deriv":
        c["k"] = draw(st.sampled_from([1, 3])) if "n" not in types else 1
        how = draw(st.sampled_from(["negative", "longer", "shorter", "high"] if c["k"] == 3 else ["negative", "longer"]))
        c["how"], c["mode"] = how, draw(st.sampled_from(["linear", "nearest", "constant"]))
        o = [draw(st.integers(0, 1)) for _ in range(d)]
        j = draw(st.integers(0, d - 1))
        if how == "negative":
            o[j] = draw(st.sampled_from([-1, -2]))
        elif how == "high":
            o[j] = draw(st.sampled_from([2, 2, 3, 4, 7]))
        elif how == "longer":
            o = o + [draw(st.integers(0, 1))]
        else:
            o = o[:-1]
        c["orders"] = [o]
        if how in ("negative", "high") and draw(st.booleans()):
            c["orders"].insert(draw(st.integers(0, 1)), [0] * d)
    return c


def check_splines(case, ctx):
    import interpolation as I

    L = sp.lib()
    kind, form = case["kind"], case["form"]
    axs, d, r, V, P = arrays(case)
    grid = ref.grid_obj(axs)
    uniform = all(a["k"] == "u" for a in axs)
    m = (2,) if case["vec"] else ()
    C = r.uniform(-1, 1, tuple(n + 2 for n in gen.shape_of(axs)) + m)  # large enough for a cubic spline
    pts = {"P": P, "out": P, "p": P[0].copy(), "t": tuple(float(v) for v in P[0])}[form]
    if case["vec"] and form == "t":
        pts = P[0].copy()
    mode = case.get("mode")
    extra = () if mode in (None, "default") else (sp.opt(mode),) if mode in ("linear", "nearest", "constant") else ()
    out = (np.full((3,) + m, np.nan),) if form == "out" else ()
    what = "%s %s" % ("".join(a["k"] for a in axs), form)

    def good(tag):
        e = ref.interpolant(axs, V, P, k=1)
        got = sp.expect_array("eval_linear " + tag, ctx.call("eval_linear " + tag, L.eval_linear, grid, V, P), (3,) + m)
        sp.compare("eval_linear " + tag, e, np.arange(3), got, P)

    if not case["after"]:
        good("before a rejected call")
    if kind in ("order", "mode", "deriv"):
        k, mo = case["k"], case["mode"]
        kw = {"k": k, "extrap_mode": mo}
        if kind == "deriv":
            kw["diff"] = str(tuple(tuple(o) for o in case["orders"]))
        elif case["diff"]:
            kw["diff"] = str(((0,) * d,))
        nd = len(case["orders"]) if kind == "deriv" else 1
        if "diff" in kw:
            out = (np.full((3,) + m + (nd,), np.nan),) if form == "out" else ()
        D = C if k != 1 else V
        if "diff" in kw and form == "t":
            pts = P[0].copy()
        ctx.rejects("eval_spline(%s, %s)" % (what, kw), caller(case, L.eval_spline, (grid, D, pts) + out, kw))
    elif kind == "prefilter":
        ctx.rejects("prefilter(%s, k=%d)" % (what, case["k"]), caller(case, L.prefilter, (grid, V), {"k": case["k"]}))
    elif kind == "option":
        o = OPTS_BAD[case["o"]]
        ctx.rejects("%s(%s) with option %r" % (case["fn"], what, o), caller(case, getattr(L, case["fn"]), (grid, C, pts) + out + (o,)))
    elif kind == "nonuniform":
        if case["fn"] == "eval_cubic":
            ctx.rejects("eval_cubic(%s, %s)" % (what, mode), caller(case, L.eval_cubic, (grid, C, pts) + out + extra))
        else:
            kw = {"k": 3, "extrap_mode": mode if mode != "default" else "linear"}
            if case["diff"]:
                kw["diff"] = str(((0,) * d, (1,) + (0,) * (d - 1)))
                pts = P if form in ("P", "out") else P[0].copy()
                out = (np.full((3,) + m + (2,), np.nan),) if form == "out" else ()
            ctx.rejects("eval_spline(%s, %s)" % (what, kw), caller(case, L.eval_spline, (grid, C, pts) + out, kw))
    else:
        fn = case["fn"]
        if kind == "few dims":
            D = r.uniform(-1, 1, gen.shape_of(axs)[:-1])
            if d == 1:
                D = float(D)
        elif kind == "many dims":
            D = r.uniform(-1, 1, gen.shape_of(axs) + (2,) * (1 + case["more"]))
        else:
            D = V
            pts = tuple(float(v) for v in (P[0][:-1] if fn != "mlinterp more" else list(P[0]) + [0.5]))
        what += " with %d-d values" % np.ndim(D) + (", %d coordinates" % len(pts) if form == "t" else "")
        if fn in ("mlinterp", "mlinterp more", "interp"):
            if kind == "few coords" and case["vec"]:
                D = D[..., 0].copy()
            if form == "out":
                pts = P
            if fn == "interp":
                if d == 1 and form == "P":
                    pts = P[:, 0].copy()
                nod = tuple(ref.ax_nodes(a) for a in axs)
                args = nod + (D,) + (pts if form == "t" else (pts,))
                if form == "t" and case["s"] % 2:
                    args = nod + (D, pts)
                ctx.rejects("interp " + what, caller(dict(case, jit=False), I.interp, args))
            else:
                ctx.rejects("mlinterp " + what, caller(case, I.mlinterp, (grid, D, pts)))
        elif fn == "filter_cubic":
            ctx.rejects("filter_cubic " + what, caller(case, L.filter_cubic, (grid, D)))
        elif fn == "prefilter":
            ctx.rejects("prefilter " + what, caller(case, L.prefilter, (grid, D), {"k": 3}))
        elif fn == "eval_spline":
            k = 3 if uniform and case["s"] % 2 else 1
            ctx.rejects("eval_spline k=%d " % k + what, caller(case, L.eval_spline, (grid, D, pts), {"k": k, "extrap_mode": mode if mode != "default" else "linear"}))
        else:
            ctx.rejects(fn + " " + what, caller(case, getattr(L, fn), (grid, D, pts) + extra))
        ctx.label(fn)
    good("after a rejected call")
    ctx.label("rejected: " + kind, "%dd" % d, "jitted" if case["jit"] else "from Python", "form " + form, *([] if uniform else ["axis given by nodes"]))
    ctx.nontrivial()


# ---------------------------------------------------------------- objects and the other modules


@st.composite
def object_cases(draw):
    cls = draw(st.sampled_from(["LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines"]))
    d = draw(st.integers(1, 3))
    return {"cls": cls, "axes": draw(gen.axes("u" * d, large=False)), "s": draw(st.integers(0, 9999)), "vec": cls.endswith("s"), "m": draw(st.integers(1, 3)),
            "kind": draw(st.sampled_from(["values", "values", "init", "columns", "columns", "coordinates", "unset"])),
            "by": draw(st.sampled_from([-2, -1, 1, 2, 3])), "flat": draw(st.booleans()), "one": draw(st.booleans())}


def check_objects(case, ctx):
    L = sp.lib()
    axs, d, r, _, P = arrays(case)
    m = (case["m"],) if case["vec"] else ()
    V = r.uniform(-1, 1, gen.shape_of(axs) + m)
    cls = getattr(L, case["cls"])
    a, b, n = [float(x["a"]) for x in axs], [float(x["b"]) for x in axs], [x["n"] for x in axs]
    make = lambda *v: ctx.call(case["cls"], cls, a, b, n, *v)
    kind = case["kind"]
    size = int(np.prod(n))
    wrong = size + case["by"]
    if wrong <= 0:
        wrong = size + 1
    W = r.uniform(-1, 1, (wrong,) + m)
    if not case["flat"]:
        W = r.uniform(-1, 1, (n[0] + abs(case["by"]),) + tuple(n[1:]) + m)
    what = "%s on %s nodes: " % (case["cls"], n)
    s = make() if kind == "unset" else make(V)
    if kind == "unset":
        ctx.rejects(what + "evaluated before values were given", s, P)
        ctx.call(what, s.set_values, V)
    elif kind == "values":
        ctx.rejects(what + "values of shape %s" % (W.shape,), s.set_values, W)
    elif kind == "init":
        ctx.rejects(what + "values of shape %s" % (W.shape,), cls, a, b, n, W)
    else:
        k = d + (case["by"] if d + case["by"] > 0 else abs(case["by"]))
        Q = r.uniform(0, 1, (3, k))
        if case["one"]:
            Q = Q[0].copy()
        ctx.rejects(what + "points of shape %s" % (Q.shape,), s if kind == "columns" or Q.ndim == 1 else s.interpolate, Q)
    got = sp.expect_array(what, ctx.call(what + "call", s, P), (3,) + m)
    if case["cls"].startswith("L") or min(n) > 1:
        e = ref.interpolant(axs, V, P, k=1 if case["cls"].startswith("L") else 3)
        sp.compare(what + "after a rejected call", e, np.arange(3), got, P)
    ctx.label("rejected: object, " + kind, case["cls"])
    ctx.nontrivial()


@st.composite
def filter_cases(draw):
    d = draw(st.integers(1, 4))
    return {"axes": draw(gen.axes("u" * d, large=False)), "s": draw(st.integers(0, 9999)), "fn": draw(st.sampled_from(["filter_coeffs", "filter_mcoeffs"])),
            "how": draw(st.sampled_from(["fewer dims", "more dims", "longer", "shorter"])), "vec": False, "j": draw(st.integers(0, 3))}


def check_filters(case, ctx):
    from importlib import import_module

    F = import_module("interpolation.splines.filter_cubic")
    axs, d, r, V, _ = arrays(case)
    fn = getattr(F, case["fn"])
    a, b, n = [float(x["a"]) for x in axs], [float(x["b"]) for x in axs], [x["n"] for x in axs]
    m = (2,) if case["fn"] == "filter_mcoeffs" else ()
    sh = list(n)
    j = case["j"] % d
    if case["how"] == "longer":
        sh[j] += 1
    elif case["how"] == "shorter":
        sh[j] -= 1
    elif case["how"] == "fewer dims" and d > 1:
        sh = sh[:-1]
    else:
        sh = sh + [2]
    W = r.uniform(-1, 1, tuple(sh) + m)
    ctx.rejects("%s of values of shape %s on %s nodes" % (case["fn"], W.shape, n), fn, np.array(a), np.array(b), np.array(n), W)
    V = r.uniform(-1, 1, tuple(n) + m)
    got = ctx.call(case["fn"], fn, np.array(a), np.array(b), np.array(n), V)
    e, t = ref.filter_ref(V, d), ref.filter_scale(V, d)
    require(np.shape(got) == e.shape and np.all(np.abs(got - e) <= 1e-10 * t), "%s after a rejected call: wrong coefficients" % case["fn"])
    ctx.label("rejected: " + case["fn"] + ", " + case["how"], "%dd" % d)
    ctx.nontrivial()


@st.composite
def smolyak_cases(draw):
    return {"d": draw(st.integers(2, 4)), "mu": draw(st.integers(1, 3)), "s": draw(st.integers(0, 9999)), "kind": draw(st.sampled_from(["init", "update", "columns", "one point"])),
            "by": draw(st.sampled_from([-3, -1, 1, 2, 7])), "deriv": draw(st.booleans())}


def check_smolyak(case, ctx):
    from interpolation.smolyak import SmolyakGrid, SmolyakInterp

    d = case["d"]
    r = np.random.RandomState(case["s"])
    g = ctx.call("SmolyakGrid", SmolyakGrid, d, case["mu"])
    f = lambda X: 1.0 + X @ np.arange(1, d + 1)
    y = f(g.grid)
    s = ctx.call("SmolyakInterp", SmolyakInterp, g, y)
    n = len(y)
    k = case["kind"]
    W = r.uniform(-1, 1, n + case["by"])
    if k == "init":
        ctx.rejects("SmolyakInterp with %d values for %d points" % (len(W), n), SmolyakInterp, g, W)
    elif k == "update":
        ctx.rejects("update_theta with %d values for %d points" % (len(W), n), s.update_theta, W)
    elif k == "columns":
        w = d + (case["by"] if d + case["by"] > 1 else 1)
        ctx.rejects("interpolate at points with %d of %d coordinates" % (w, d), lambda: s.interpolate(r.uniform(-1, 1, (4, w)), deriv=case["deriv"]))
    else:
        ctx.rejects("interpolate at a vector", lambda: s.interpolate(r.uniform(-1, 1, d), deriv=case["deriv"]))
    P = r.uniform(-1, 1, (4, d))
    got = ctx.call("interpolate", s.interpolate, P)
    require(np.shape(got) == (4,) and np.all(np.abs(got - f(P)) <= 1e-10 * 20), "interpolate after a rejected call: got %s, expected %s" % (got, f(P)))
    ctx.label("rejected: Smolyak, " + k)
    ctx.nontrivial()


def units(tier, seed):
    return ([Unit("splines%d" % i, spline_cases, check_splines, quick=150, thorough=2500, cost=60) for i in range(7)]
            + [Unit("objects%d" % i, object_cases, check_objects, quick=120, thorough=2000, cost=8) for i in range(2)]
            + [Unit("filters", filter_cases, check_filters, quick=200, cost=5), Unit("smolyak", smolyak_cases, check_smolyak, quick=200, cost=5)])
