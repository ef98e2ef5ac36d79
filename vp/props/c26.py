import importlib
import random

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, ref2, source, sp
from ..core import Unit, Violation, require

RULE = ("cases: a function, the type of every numeric argument (integer of several widths, single precision, lists, Python numbers), axes with whole-number bounds or nodes, data, points; "
        "a call that is accepted is compared with the reference at the same numbers in double precision; non-trivial: accepted, an argument is not double precision, "
        "at least one result and data not all equal")
ASSUMPTIONS = ["calls that raise are not judged (the library documents no list of accepted types); that double precision works is judged by the other properties",
               "tolerance 1e-10 of the sum of |weight*value| (1e-4 where single precision coordinates or Hermite data take part, 1e-6 where single precision values do)"]

VT = ["i8", "i8", "i4", "i2", "f4", "f8", "u4"]  # types of data
FNS = ["linear", "cubic", "spline", "diff", "filter", "interp", "mlinterp", "object", "hermite"]


def vdata(kind, seed, shape):
    """whole numbers that every type of the kind can hold; large ones in wide types"""
    r = np.random.RandomState(seed)
    big = {"i8": 2**50, "i4": 2**31 - 1, "i2": 2**15 - 1, "u4": 2**31, "f4": 2**20, "f8": 1000}[kind]
    hi = big if seed % 3 == 0 else 9
    V = r.randint(0 if kind == "u4" else -hi, hi, shape).astype("f8")
    if kind in ("f4", "f8"):
        V = V + r.randint(0, 8, shape) / 8.0
    return V


@st.composite
def int_axes(draw, types):
    out = []
    for t in types:
        if t == "u":
            a = draw(st.integers(-5, 5))
            out.append({"k": "u", "a": float(a), "b": float(a + draw(st.integers(1, 9))), "n": draw(st.integers(2, 7))})
        else:
            g = draw(st.lists(st.integers(1, 4), min_size=1, max_size=5))
            a = draw(st.integers(-5, 5))
            out.append({"k": "n", "x": [float(v) for v in np.cumsum([a] + g)]})
    return out


def strat(fns, dims, fixed=None):
    @st.composite
    def s(draw):
        c = dict(fixed) if fixed else {}
        fn = c.setdefault("fn", draw(st.sampled_from(fns)))
        d = len(c["types"]) if "types" in c else draw(st.sampled_from([1] if fn == "hermite" else dims))
        if "types" not in c:
            cubic = fn in ("cubic", "filter", "object")
            c["types"] = "n" if fn == "hermite" else "u" * d if cubic else "".join(draw(st.lists(st.sampled_from("un"), min_size=d, max_size=d)))
        c["axes"] = draw(int_axes(c["types"]))
        for key, opts in (("vt", VT), ("at", ["float", "int", "mixed"]), ("nt", ["f8", "i8", "i4", "f4"]), ("pt", ["f8", "i8", "f4", "py", "pyint", "row"]),
                          ("cls", ["LinearSpline", "CubicSpline", "LinearSplines", "CubicSplines"]), ("how", ["list", "tuple", "array", "f4"]), ("k", [1, 3])):
            if key == "pt" and not fixed and fn in ("linear", "cubic", "spline", "diff"):
                opts = ["f8", "py", "pyint", "row"]  # lists of points of other types are not accepted by the compiled functions
            if key not in c:
                c[key] = draw(st.sampled_from(opts))
        if c["fn"] in ("spline", "diff") and "n" in c["types"]:
            c["k"] = 1
        c["seed"] = draw(st.integers(0, 9999))
        c["m"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
        c["mode"] = draw(st.sampled_from(sp.MODES))
        c["pseed"] = draw(st.integers(0, 9999))
        c["N"] = draw(st.integers(1, 6))
        return c

    return s


def pts(axs, seed, N, whole):
    r = np.random.RandomState(seed)
    P = np.empty((N, len(axs)))
    for j, a in enumerate(axs):
        lo, hi = ref.ax_a(a), ref.ax_b(a)
        x = r.randint(int(lo) - 2, int(hi) + 3, N).astype(float)
        P[:, j] = x if whole else x + r.randint(0, 8, N) / 8.0
    return P


def check(case, ctx):
    L = sp.lib()
    import interpolation as I

    fn, axs, m, mode = case["fn"], case["axes"], case["m"], case["mode"]
    d, N = len(axs), case["N"]
    vt, pt = case["vt"], case["pt"]
    shape = gen.shape_of(axs)
    grid = []
    for a in axs:
        if a["k"] == "u":
            at = case["at"]
            lo = int(a["a"]) if at == "int" else a["a"]
            grid.append((lo, float(a["b"]) if at != "int" else int(a["b"]), a["n"]))
        else:
            grid.append(np.array(a["x"]).astype(case["nt"]))
    grid = tuple(grid)
    accepted = [True]
    what = "%s %dd (values %s, points %s)" % (fn, d, vt, pt)

    def call(f, *args, **kw):
        try:
            ctx.calls += 1
            return source.callable_of(f)(*args, **kw) if isinstance(ctx, source.Proxy) else f(*args, **kw)
        except (IndexError, ArithmeticError, MemoryError) as e:
            raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:200]))
        except Exception:  # noqa: BLE001  a type that is not accepted
            accepted[0] = False
            return None

    def judge(got, exp, tol, w=what):
        got = np.asarray(got)
        require(got.shape == exp.shape, lambda: "%s returned shape %s, expected %s" % (w, got.shape, exp.shape))
        require(got.dtype.kind == "f", lambda: "%s returned %s" % (w, got.dtype))
        bad = ~(np.abs(got - exp) <= tol)
        require(not bad.any(), lambda: "%s: got %r, the same numbers in double precision give %r" % (w, float(got[bad][0]), float(exp[bad][0])))

    if fn == "hermite":
        H = importlib.import_module("interpolation.splines.hermite")
        x = np.array(axs[0]["x"])
        y, yp = vdata(vt, case["seed"], x.shape), vdata(vt, case["seed"] + 1, x.shape)
        P = pts(axs, case["pseed"], N, pt in ("i8", "pyint"))[:, 0]
        exp, tol = ref2.hermite(x, y, yp, P)
        tol = np.maximum(tol, (1e-4 if "f4" in (vt, case["nt"]) or pt == "f4" else 1e-11) * (np.abs(y).max() + np.abs(yp).max() * np.diff(x).max()))
        xx = x.astype(case["nt"])
        yy, yyp = y.astype(vt), yp.astype(vt) if case["seed"] % 2 else yp
        if pt in ("py", "pyint", "row"):
            got = [call(H.HermiteInterpolation, int(v) if pt == "pyint" else float(v), xx, yy, yyp) for v in P]
        else:
            got = call(H.HermiteInterpolationVect, P.astype({"f8": "f8", "f4": "f4", "i8": "i8"}[pt]), xx, yy, yyp)
        if accepted[0]:
            judge(np.array(got, dtype=float), exp, tol)
        ctx.label("hermite", "accepted" if accepted[0] else "not accepted")
        ctx.nontrivial(accepted[0] and np.ptp(y) > 0)
        return
    multi = m if fn not in ("interp", "mlinterp") else 0
    if fn == "object":
        multi = (m or 1) if case["cls"].endswith("s") else 0
    tail = (multi,) if multi else ()
    V = vdata(vt, case["seed"], shape + tail)
    Vx = V.astype(vt)
    if case["how"] == "list" and fn == "object":
        Vx = V.astype(vt).tolist()
    whole = pt in ("i8", "pyint")
    P = pts(axs, case["pseed"], N, whole)
    rel = 1e-10 if vt != "f4" else 1e-6
    if pt == "f4" or case["nt"] == "f4":
        rel = 1e-4
    k = 1
    if fn == "cubic" or (fn in ("spline", "diff") and case["k"] == 3):
        k = 3
    cmode = "linear" if mode == "default" else mode
    if fn == "filter":
        e = np.asarray(ref.filter_ref(V, d), dtype=float)
        for f, kw in ((L.filter_cubic, {}), (L.prefilter, {"k": 3})):
            accepted[0] = True
            got = call(f, grid, Vx, **kw)
            if accepted[0]:
                judge(got, e, max(rel, 1e-9) * (np.max(np.abs(V)) + 1e-300) * 10**d, what + " " + f.__name__)
        if not multi:
            F = importlib.import_module("interpolation.splines.filter_cubic")
            cv = {"list": list, "tuple": tuple, "array": np.array, "f4": lambda q: np.array(q, dtype="f4")}[case["how"]]
            got = call(F.filter_coeffs, cv([int(a["a"]) for a in axs]), cv([int(a["b"]) for a in axs]), [a["n"] for a in axs], Vx)
            if accepted[0]:
                judge(got, e, max(rel, 1e-9) * (np.max(np.abs(V)) + 1e-300) * 10**d, what + " filter_coeffs")
        ctx.label(fn, "values " + vt, "accepted" if accepted[0] else "not accepted")
        ctx.nontrivial(accepted[0] and np.ptp(V) > 0 and vt != "f8")
        return
    if fn == "object":
        k = 3 if case["cls"].startswith("C") else 1
        cv = {"list": list, "tuple": tuple, "array": np.array, "f4": lambda q: np.array(q, dtype="f4")}[case["how"]]
        cls = getattr(L, case["cls"])
        iv = (int if case["at"] == "int" else float)
        s = call(cls, cv([iv(a["a"]) for a in axs]), cv([iv(a["b"]) for a in axs]), (list if case["how"] == "f4" else cv)([a["n"] for a in axs]), Vx)
        got = None
        if accepted[0]:
            if pt in ("py", "pyint", "row"):
                got = [call(s, p.astype("i8") if pt == "pyint" else p) for p in P]
            else:
                got = call(s, P.astype(pt))
        if accepted[0]:
            R = ref.interpolant(axs, V, P, k=k)
            judge(np.asarray(got, dtype=float).reshape((N,) + tail), R.alts[0], np.maximum(R.tol, rel * 1e10 * R.tol), what + " " + case["cls"])
            nod = np.asarray(s.grid, dtype=float)
            e = ref.enum_nodes([ref.ax_nodes(a) for a in axs])
            require(np.abs(nod - (e if k == 3 else e.T)).max() <= 1e-12 * 20 if nod.shape == (e if k == 3 else e.T).shape else False, what + " grid of " + case["cls"])
        ctx.label("object", case["cls"], "values " + vt, "points " + pt, "accepted" if accepted[0] else "not accepted")
        ctx.nontrivial(accepted[0] and np.ptp(V) > 0)
        return
    C = Vx
    if k == 3:
        C = call(L.filter_cubic, ref.grid_obj(axs), V)
        require(accepted[0], "filter_cubic raised")
    one = pt in ("py", "pyint", "row")
    if one:
        conv = {"py": lambda p: tuple(float(v) for v in p), "pyint": lambda p: tuple(int(v) for v in p), "row": lambda p: p.copy()}[pt]
        arg = [conv(p) for p in P]
        if multi and pt != "row":
            arg = [p.astype("i8") if pt == "pyint" else p.copy() for p in P]
    else:
        arg = P.astype(pt)
    orders = None
    if fn in ("linear", "cubic"):
        f = L.eval_linear if k == 1 else L.eval_cubic
        ex = () if mode == "default" else (sp.opt(mode),)
        run = lambda q: call(f, grid, C, q, *ex)  # noqa: E731
    elif fn == "spline":
        run = lambda q: call(L.eval_spline, grid, C, q, out=None, k=k, diff="None", extrap_mode=cmode)  # noqa: E731
    elif fn == "diff":
        cmode = "linear" if cmode == "nearest" else cmode
        orders = [tuple(int(i == j) for i in range(d)) for j in range(d)][:2] + [(0,) * d]
        run = lambda q: call(L.eval_spline, grid, C, q, out=None, k=k, diff=str(tuple(orders)), extrap_mode=cmode)  # noqa: E731
    elif fn == "interp":
        cmode = "nearest"
        run = lambda q: call(I.interp, *(grid + (C,) + (q if isinstance(q, tuple) else (q,))))  # noqa: E731
    else:
        cmode = "linear"
        run = lambda q: call(I.mlinterp, grid, C, q)  # noqa: E731
    if fn == "interp" and d == 1 and not one:
        arg = arg[:, 0]
    got = [run(q) for q in arg] if one else run(arg)
    if accepted[0]:
        got = np.asarray(got)
        for j, o in enumerate(orders or [None]):
            R = ref.interpolant(axs, V, P, k=k, mode=cmode, **({"orders": o} if o else {}))
            g = got[..., j] if orders else got
            g = np.asarray(g, dtype=float).reshape((N,) + tail) if g.size == N * max(1, multi) else g
            tol = np.maximum(R.tol, rel * 1e10 * R.tol)
            e = R.alts[0]
            require(g.shape == e.shape, lambda: "%s returned shape %s, expected %s" % (what, g.shape, e.shape))
            bad = np.ones(g.shape, dtype=bool)
            for a in R.alts:
                bad &= ~(np.abs(g - a) <= tol)
            require(not bad.any(), lambda: "%s %s at %s on %s: got %r, the same numbers in double precision give %r" % (
                what, mode, P[np.argwhere(bad)[0][0]].tolist(), grid, float(g[bad][0]), float(e[bad][0])))
    ctx.label(fn, "values " + vt, "points " + pt, "nodes " + case["nt"], "bounds " + case["at"], "accepted" if accepted[0] else "not accepted")
    ctx.nontrivial(accepted[0] and np.ptp(V) > 0 and (vt != "f8" or pt not in ("f8", "py", "row") or case["at"] != "float" or case["nt"] != "f8"))


def units(tier, seed):
    us = []
    rnd = random.Random(seed + 2600)
    th = tier == "thorough"
    for d in (1, 2, 3):
        us.append(source.unit("any-%dd" % d, strat(FNS[:8], [d]), check, quick=500, thorough=8000, cost=10 * d))
    us.append(source.unit("hermite", strat(["hermite"], [1]), check, quick=300, thorough=4000, cost=4))
    # compiled: the types of a signature are fixed per unit
    core = [dict(fn="linear", types="u", vt="i8", at="int", pt="f8"), dict(fn="linear", types="n", nt="i8", vt="f8", pt="f8"),
            dict(fn="linear", types="un", nt="i4", vt="i4", at="float", pt="pyint"), dict(fn="filter", types="u", vt="i8", how="list"),
            dict(fn="filter", types="uu", vt="i4", how="array"), dict(fn="diff", types="u", k=1, vt="i8", at="int", pt="f8"),
            dict(fn="interp", types="n", nt="i8", vt="f8", pt="f8"), dict(fn="interp", types="n", nt="f8", vt="i8", pt="i8"),
            dict(fn="interp", types="nn", nt="i8", vt="i8", pt="pyint"), dict(fn="mlinterp", types="n", nt="i8", vt="i8", pt="f8"),
            dict(fn="mlinterp", types="nu", nt="i4", vt="f8", at="float", pt="pyint"), dict(fn="cubic", types="u", vt="i8", at="int", pt="pyint"),
            dict(fn="hermite", types="n", nt="i8", vt="i8", pt="f8"), dict(fn="hermite", types="n", nt="i8", vt="i8", pt="pyint")]
    for c in ["LinearSpline", "CubicSpline", "LinearSplines", "CubicSplines"]:
        for how in ("list", "array"):
            core.append(dict(fn="object", types="u" if how == "list" else "uu", cls=c, vt="i8", pt="f8", how=how, at="int"))
    core.append(dict(fn="object", types="u", cls="LinearSpline", vt="f8", pt="pyint", how="array", at="int"))
    core.append(dict(fn="object", types="u", cls="LinearSplines", vt="i4", pt="i8", how="array", at="int"))
    for _ in range(10 if not th else 80):
        fn = rnd.choice(FNS[:7])
        cub = fn in ("cubic", "filter")
        d = rnd.choice([1, 2])
        core.append(dict(fn=fn, types="u" * d if cub else "".join(rnd.choice("un") for _ in range(d)), vt=rnd.choice(VT), at=rnd.choice(["float", "int"]),
                         nt=rnd.choice(["f8", "i8", "i4", "f4"]), pt=rnd.choice(["f8", "i8", "f4", "py", "pyint"]), k=1, how=rnd.choice(["list", "array"])))
    for i, c in enumerate(core):
        us.append(Unit("%02d-%s" % (i, "-".join(str(v) for v in c.values())), strat([c["fn"]], [1], c), check, quick=30, thorough=300,
                       cost=3 if c["fn"] in ("cubic", "object") else 1))
    return us
