import importlib

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, ref2, sp
from ..core import Unit, require

RULE = ("cases: small grids (often 2 nodes per axis), coefficients, ordinary points mixed with NaN, infinities and huge finite coordinates; half of the units run the "
        "compiled code with bounds checking switched on (an access outside an array raises IndexError), the other half with arrays embedded in poisoned memory "
        "(NaN around inputs, a sentinel around outputs); results at the ordinary points are compared with the reference; "
        "non-trivial: at least one NaN, infinite or huge coordinate, or an axis with 2 nodes")
ASSUMPTIONS = ["NUMBA_BOUNDSCHECK=1 instruments every array access of the compiled code (indices from -n to n-1 are inside)",
               "the value at a NaN or infinite point itself is not judged"]

SPECIAL = [float("nan"), float("nan"), float("nan"), float("inf"), float("-inf"), 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 1e18, -1e18, 9.3e18, -9.3e18, 2147483648.5, 1e25]
SENT = -6.789e123
PAD = 64


def boxed(arr, fill):
    """C-contiguous copy inside poisoned memory -> (view, buffer)"""
    arr = np.ascontiguousarray(arr, dtype=float)
    buf = np.full(arr.size + 2 * PAD, fill)
    v = buf[PAD: PAD + arr.size].reshape(arr.shape)
    v[...] = arr
    return v, buf


def outbox(shape):
    size = int(np.prod(shape))
    buf = np.full(size + 2 * PAD, SENT)
    return buf[PAD: PAD + size].reshape(shape), buf


def around(what, buf, fill):
    a = np.concatenate([buf[:PAD], buf[len(buf) - PAD:]])
    ok = np.isnan(a) if np.isnan(fill) else a == fill
    require(ok.all(), what + ": memory next to an array was written")


def sizes(draw, axs):
    """make many axes tiny"""
    for ax in axs:
        if draw(st.integers(0, 2)) == 0:
            n = draw(st.integers(2, 3))
            if ax["k"] == "u":
                ax["n"] = n
            else:
                ax["x"] = ax["x"][:n] if len(ax["x"]) >= n else ax["x"]
    return axs


def strat(cfg):
    d = len(cfg["types"])

    @st.composite
    def s(draw):
        axs = sizes(draw, draw(gen.axes(cfg["types"])))
        p = draw(gen.points(d, max_exp=2, max_bulk=6))
        sp_ = draw(st.lists(st.tuples(st.integers(0, 9), st.lists(st.one_of(st.none(), st.integers(0, len(SPECIAL) - 1)), min_size=d, max_size=d)).map(list), max_size=5))
        return {"cfg": cfg, "axes": axs, "v": draw(gen.values()), "m": draw(st.integers(1, 3)), "p": p, "special": sp_}

    return s


def merge(axs, P, special):
    """insert special rows; -> points, mask of ordinary rows, mask of huge finite rows"""
    rows = [(r, 0) for r in P]
    for pos, vals in special:
        r = np.array([(ref.ax_a(ax) + ref.ax_b(ax)) / 2 for ax in axs])
        kind = 0
        for j, v in enumerate(vals):
            if v is not None:
                r[j] = SPECIAL[v]
                kind = max(kind, 1 if np.isfinite(r[j]) else 2)
        rows.insert(pos % (len(rows) + 1), (r, kind))
    if not rows:
        return np.empty((0, len(axs))), np.zeros(0, dtype=bool), np.zeros(0, dtype=bool)
    k = np.array([q for _, q in rows])
    return np.array([r for r, _ in rows]), k == 0, k == 1


def judge(what, axs, V, P, ok, huge, got, k, mode, orders=None):
    sel = ok.copy()
    if mode in ("nearest", "constant") and (orders is None or not any(orders)):
        sel |= huge
    idx = np.flatnonzero(sel)
    if not len(idx):
        return
    R = ref.interpolant(axs, V, P[idx], k=k, orders=orders, mode=mode)
    sp.compare(what, R, np.arange(len(idx)), got[idx], P[idx])


def check(case, ctx):
    with np.errstate(all="ignore"):
        return _check(case, ctx)


def _check(case, ctx):
    L = sp.lib()
    cfg, axs = case["cfg"], case["axes"]
    fn, mode, form, k = cfg["fn"], cfg.get("mode", "linear"), cfg["form"], cfg["k"]
    d = len(axs)
    P, ok, huge = merge(axs, gen.build_points(axs, case["p"]), case["special"])
    N = len(P)
    m = case["m"]
    multi = cfg.get("multi", False)
    tail = (m,) if multi else ()
    shape = gen.shape_of(axs)
    rawk = "b" if k == 3 else 1
    shp = tuple(n + 2 for n in shape) if k == 3 else shape
    V = gen.build_values(case["v"], shp + tail)
    C, Cbuf = boxed(V, np.nan)
    PP, Pbuf = boxed(P, np.nan)
    grid, gbufs = [], []
    for ax in axs:
        o = ref.ax_obj(ax)
        if ax["k"] == "n":
            o, bf = boxed(o, np.nan)
            gbufs.append((bf, bf.copy()))
        grid.append(o)
    grid = tuple(grid)
    cb, pb = Cbuf.copy(), Pbuf.copy()
    obuf = None
    what = "%s %s (%s, %s%s)" % (fn, "".join(a["k"] for a in axs), form, mode, ", vector values" if multi else "")
    orders = [tuple(o) for o in cfg["orders"]] if cfg.get("orders") else None
    a, b, o = (np.array([float(x[q]) for x in axs]) for q in "abn") if fn.startswith(("k_", "c_")) else (None, None, None)
    if o is not None:
        o = o.astype(np.int64)
    if fn in ("eval_linear", "eval_cubic"):
        f = getattr(L, fn)
        extra = (sp.opt(mode),)
        if form == "vec":
            got = ctx.call(what, f, grid, C, PP, *extra)
        elif form == "vec_out":
            got, obuf = outbox((N,) + tail)
            ctx.call(what, f, grid, C, PP, got, *extra)
        else:
            got = np.zeros((N,) + tail)
            for i in range(N):
                if form == "tuple":
                    got[i] = ctx.call(what, f, grid, C, tuple(float(v) for v in P[i]), *extra)
                elif form == "point":
                    got[i] = ctx.call(what, f, grid, C, PP[i], *extra)
                else:  # point_out
                    out, ob = outbox(tail)
                    ctx.call(what, f, grid, C, PP[i], out, *extra)
                    got[i] = out
                    around(what, ob, SENT)
    elif fn == "eval_spline":
        kw = dict(k=k, diff=str(tuple(orders)), extrap_mode=mode)
        no = len(orders)
        if form == "vec":
            got = ctx.call(what, L.eval_spline, grid, C, PP, out=None, **kw)
        elif form == "vec_out":
            got, obuf = outbox((N,) + tail + (no,))
            ctx.call(what, L.eval_spline, grid, C, PP, out=got, **kw)
        else:
            got = np.zeros((N,) + tail + (no,))
            for i in range(N):
                out, ob = outbox(tail + (no,))
                ctx.call(what, L.eval_spline, grid, C, PP[i], out=out, **kw)
                got[i] = out
                around(what, ob, SENT)
    elif fn == "mlinterp":
        import interpolation as I

        if form == "vec":
            got = ctx.call(what, I.mlinterp, grid, C, PP)
        else:
            got = np.array([ctx.call(what, I.mlinterp, grid, C, tuple(float(v) for v in P[i])) for i in range(N)], dtype=float)
    elif fn == "interp":
        import interpolation as I

        if form == "vec":
            got = ctx.call(what, I.interp, *(grid + (C, PP)))
        else:
            got = np.array([ctx.call(what, I.interp, *(grid + (C,) + tuple(float(v) for v in P[i]))) for i in range(N)], dtype=float)
    elif fn == "c_ml":
        ML = importlib.import_module("interpolation.splines.multilinear_numba")
        f = ML.vec_multilinear_interpolation if multi else ML.multilinear_interpolation
        got, obuf = outbox((N,) + tail)
        ctx.call(what, f, a, b, o, C, PP, got)
    elif fn == "k_G":
        G = importlib.import_module("interpolation.splines.eval_cubic").vec_eval_cubic_splines_G
        got, obuf = outbox((N,) + tail)
        dv, dbuf = outbox((N, d) + tail)
        ctx.call(what, G, a, b, o, C, PP, got, dv)
        around(what, dbuf, SENT)
        for j in range(d):
            judge(what + " gradient", axs, V, P, ok, huge, dv[:, j], rawk, "linear", tuple(int(q == j) for q in range(d)))
    else:  # compiled routines for fixed numbers of dimensions
        K = importlib.import_module("interpolation.splines.eval_cubic_numba")
        f = getattr(K, "%s_%d" % (fn[2:], d))
        if fn.startswith("k_vec"):
            got, obuf = outbox((N,) + tail)
            ctx.call(what, f, a, b, o, C, PP, got)
        else:
            got = np.zeros((N,) + tail)
            for i in range(N):
                if multi:
                    out, ob = outbox(tail)
                    ctx.call(what, f, a, b, o, C, PP[i], out)
                    got[i] = out
                    around(what, ob, SENT)
                else:
                    got[i] = ctx.call(what, f, a, b, o, C, PP[i])
    if obuf is not None:
        around(what, obuf, SENT)
    require(np.array_equal(Cbuf, cb, equal_nan=True) and np.array_equal(Pbuf, pb, equal_nan=True) and
            all(np.array_equal(x, y, equal_nan=True) for x, y in gbufs), what + ": an input or the memory around it was written")
    got = np.asarray(got)
    if N:
        md = "nearest" if fn == "interp" else mode
        if orders:
            for j, od in enumerate(orders):
                if md == "nearest" and any(od):
                    # outside, derivatives in 'nearest' mode are not judged
                    judge(what, axs, V, P, ok & ~ref.outside(axs, P), huge, got[..., j], rawk, md, od)
                else:
                    judge(what, axs, V, P, ok, huge, got[..., j], rawk, md, od)
        else:
            judge(what, axs, V, P, ok, huge, got, rawk, md)
    special = N > 0 and not ok.all()
    ctx.label("function " + fn, "form " + form, "mode " + mode, *(["special point"] if special else []), *(["2 nodes"] if 2 in shape else []))
    if np.isnan(P).any():
        ctx.label("NaN coordinate")
    if np.isinf(P).any():
        ctx.label("infinite coordinate")
    ctx.nontrivial(special or (2 in shape and N > 0))


# ---------------------------------------------------------------- filtering, hermite


def strat_f(d):
    @st.composite
    def s(draw):
        return {"axes": sizes(draw, draw(gen.axes("u" * d))), "v": draw(gen.values()), "m": draw(st.sampled_from([None, None, 1, 2, 3])),
                "kind": draw(st.sampled_from(["new", "prefilter", "old", "oldm"])), "nf": draw(st.one_of(st.none(), st.integers(0, 999)))}

    return s


def check_f(case, ctx):
    from interpolation.splines.filter_cubic import filter_coeffs, filter_mcoeffs

    L = sp.lib()
    axs, kind = case["axes"], case["kind"]
    d = len(axs)
    m = case["m"] if kind in ("new", "prefilter") else (case["m"] or 2) if kind == "oldm" else None
    tail = (m,) if m else ()
    shape = gen.shape_of(axs)
    V = gen.build_values(case["v"], shape + tail)
    if case["nf"] is not None:
        V.flat[case["nf"] % V.size] = [np.nan, np.inf, 1e308][case["nf"] % 3]
    Vb, buf = boxed(V, np.nan)
    b0 = buf.copy()
    grid = ref.grid_obj(axs)
    cshape = tuple(n + 2 for n in shape) + tail
    a, b = np.array([x["a"] for x in axs]), np.array([x["b"] for x in axs])
    if kind == "new":
        C, ob = outbox(cshape)
        ctx.call("filter_cubic", L.filter_cubic, grid, Vb, C)
        around("filter_cubic", ob, SENT)
    elif kind == "prefilter":
        C, ob = outbox(cshape)
        ctx.call("prefilter", L.prefilter, grid, Vb, out=C, k=3)
        around("prefilter", ob, SENT)
    elif kind == "old":
        C = ctx.call("filter_coeffs", filter_coeffs, a, b, list(shape), Vb)
    else:
        C = ctx.call("filter_mcoeffs", filter_mcoeffs, a, b, list(shape), Vb)
    require(np.array_equal(buf, b0, equal_nan=True), kind + ": the values or the memory around them were written")
    if case["nf"] is None:
        R = ref.filter_ref(V, d)
        require(np.all(np.abs(C - R) <= 1e-10 * ref.filter_scale(V, d) + 1e-290), kind + ": coefficients are not computed from the values alone")
    ctx.label("filter " + kind, *(["2 nodes"] if 2 in shape else []))
    ctx.nontrivial(2 in shape or case["nf"] is not None)


@st.composite
def strat_h(draw):
    return {"ax": sizes(draw, draw(gen.axes("n")))[0], "v": draw(gen.values()), "w": draw(gen.values()), "p": draw(gen.points(1, max_bulk=8)),
            "special": draw(st.lists(st.tuples(st.integers(0, 9), st.lists(st.integers(0, len(SPECIAL) - 1), min_size=1, max_size=1)).map(list), max_size=4))}


def check_h(case, ctx):
    from interpolation.splines import hermite as H

    ax = case["ax"]
    x = ref.ax_nodes(ax)
    y, yp = gen.build_values(case["v"], x.shape), gen.build_values(case["w"], x.shape)
    P, ok, huge = merge([ax], gen.build_points([ax], case["p"]), case["special"])
    P = P[:, 0].copy()
    B = [boxed(v, np.nan) for v in (x, y, yp, P)]
    keep = [b.copy() for _, b in B]
    got = ctx.call("HermiteInterpolationVect", H.HermiteInterpolationVect, B[3][0], B[0][0], B[1][0], B[2][0])
    one = [ctx.call("HermiteInterpolation", H.HermiteInterpolation, float(p), B[0][0], B[1][0], B[2][0]) for p in P]
    sel = ok | huge
    if sel.any():
        e, t = ref2.hermite(x, y, yp, P[sel])
        require(np.all(np.abs(got[sel] - e) <= t) and np.all(np.abs(np.array(one, dtype=float)[sel] - e) <= t), "Hermite interpolation disturbed by the other points or by memory around the data")
    require(all(np.array_equal(b, k, equal_nan=True) for (_, b), k in zip(B, keep)), "an argument or the memory around it was written")
    ctx.label("function hermite", *(["special point"] if not ok.all() else []))
    ctx.nontrivial(not ok.all() or len(x) == 2)


# ---------------------------------------------------------------- polynomials and grids (bounds checking only)


@st.composite
def strat_c(draw):
    return {"z": draw(st.lists(st.sampled_from([0.0, 1.0, float("nan"), float("inf"), 1e200, -2.5]), min_size=1, max_size=6)), "d": draw(st.integers(0, 5)),
            "nobs": draw(st.integers(0, 3)), "der": draw(st.integers(0, 5)), "sh": draw(st.lists(st.integers(1, 5), min_size=1, max_size=4))}


def check_c(case, ctx):
    from interpolation.cartesian import cartesian
    from interpolation.complete_poly import complete_polynomial, complete_polynomial_der

    z = np.array(case["z"])
    Z = np.stack([z] * case["nobs"], axis=1) if case["nobs"] else z
    der = case["der"] % len(z)
    r = ctx.call("complete_polynomial", complete_polynomial, Z, case["d"])
    ctx.call("complete_polynomial_der", complete_polynomial_der, Z, case["d"], der)
    require(np.all(np.isfinite(r[0])), "complete_polynomial: constant term")
    ctx.call("cartesian", cartesian, [np.arange(n) * 1.5 for n in case["sh"]], order="F" if case["nobs"] else "C")
    ctx.label("polynomials and products")
    ctx.nontrivial(case["d"] > 1)


def units(tier, seed):
    us = []
    th = tier == "thorough"
    BC = {"NUMBA_BOUNDSCHECK": "1"}

    def add(cfg, q, cost):
        name = "%s%d-%s-%s-%s%s%s" % (cfg["fn"], cfg["k"], cfg["types"], cfg["form"], cfg.get("mode", ""), "-multi" if cfg.get("multi") else "", "-diff" if cfg.get("orders") else "")
        us.append(Unit("bc-" + name, strat(cfg), check, quick=q, cost=cost * 1.5, env=BC))
        if th or (hash_(name) + seed) % 3 == 0:
            us.append(Unit("mem-" + name, strat(cfg), check, quick=q, cost=cost))

    modes = ["linear", "nearest", "constant"]
    for t in ["u", "n", "uu", "un", "nn"] + (["nu", "uuu", "nun"] if th else ["nun" if seed % 2 else "unu"]):
        for mi, mode in enumerate(modes):
            for fi, form in enumerate(["vec", "vec_out", "point", "tuple", "point_out"]):
                for multi in (False, True):
                    if multi and form == "tuple" or not multi and form == "point_out":
                        continue
                    if not th and len(t) > 1 and (mi + fi + multi + seed + len(t)) % (3 if len(t) == 2 else 6) != 0:
                        continue
                    add(dict(fn="eval_linear", k=1, types=t, form=form, mode=mode, multi=multi), 40, len(t) + 1)
                    if "n" not in t and len(t) < 3:
                        add(dict(fn="eval_cubic", k=3, types=t, form=form, mode=mode, multi=multi), 40, 2 * len(t) + 1)
    for k, t, od in [(1, "u", [[1], [0]]), (1, "n", [[1], [2]]), (3, "u", [[0], [1]]), (1, "un", [[1, 0], [0, 1]]), (3, "uu", [[1, 0], [0, 0], [0, 1]])]:
        for mode in modes:
            for form in ["vec", "vec_out", "point_out"]:
                if not th and (modes.index(mode) + len(form) + seed + len(od)) % 3:
                    continue
                add(dict(fn="eval_spline", k=k, types=t, form=form, mode=mode, orders=od), 30, 2 * len(t) + 1)
    for t in ["u", "n", "uu", "nu", "nn", "un"] + (["unu"] if th else []):
        for form in ("vec", "tuple"):
            add(dict(fn="mlinterp", k=1, types=t, form=form), 40, len(t))
        for form in ("vec", "scalars"):
            add(dict(fn="interp", k=1, types=t, form=form), 40, len(t))
    for d in (1, 2, 3):
        for fn in ("k_eval_cubic_spline", "k_vec_eval_cubic_spline", "k_eval_cubic_splines", "k_vec_eval_cubic_splines", "k_G"):
            if d == 3 and not th and fn != "k_vec_eval_cubic_spline":
                continue
            add(dict(fn=fn, k=3, types="u" * d, form="kernel", multi=fn.endswith("splines") or fn == "k_G"), 50, 4 * d)
        for multi in (False, True):
            add(dict(fn="c_ml", k=1, types="u" * d, form="compat", multi=multi), 40, d)
    for d in (1, 2, 3):
        us.append(Unit("bc-filter-%dd" % d, strat_f(d), check_f, quick=120, cost=4, env=BC))
        us.append(Unit("mem-filter-%dd" % d, strat_f(d), check_f, quick=120, cost=3))
    us.append(Unit("bc-hermite", strat_h, check_h, quick=250, cost=3, env=BC))
    us.append(Unit("mem-hermite", strat_h, check_h, quick=250, cost=3))
    us.append(Unit("bc-complete", strat_c, check_c, quick=250, cost=5, env=BC))
    return us


def hash_(s):
    import zlib

    return zlib.crc32(s.encode())
