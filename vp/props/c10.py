from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, sp
from ..core import Unit, require

RULE = ("cases: two spline objects of one class on different grids and a sequence of set_values / evaluate / read grid / rejected calls / changes of arrays "
        "handed over or returned, interpreted against a model that remembers the last accepted values; non-trivial: an evaluation after values were replaced, "
        "after a rejected call or after the caller's array changed")
ASSUMPTIONS = ["linear objects may keep a reference to the array they are given (their documentation promises nothing), so that array is not changed for them"]

CLS = ["LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines"]


@st.composite
def ops(draw, d, cls):
    cubic = cls.startswith("Cubic")
    extra = {"CubicSpline": ["values"], "CubicSplines": ["diff"] if d <= 2 else []}.get(cls, [])
    o = st.sampled_from
    which = st.integers(0, 1)
    pts = gen.points(d, max_exp=2, max_bulk=6)
    alts = [
        st.tuples(st.just("set"), which, gen.values(), o(["grid", "flat"] + (["list"] if cubic else [])), st.integers(1, 3)),
        st.tuples(st.just("set"), which, gen.values(), o(["grid", "flat", "F", "int", "same", "same", "nudge"]), st.integers(1, 3)),
        st.tuples(st.just("eval"), which, pts, o(["call", "interpolate", "one", "one_interp"])),
        st.tuples(st.just("eval"), which, pts, o(["call", "interpolate", "one", "F"] + extra)),
        st.tuples(st.just("again"), which, st.integers(0, 9999), o(["call", "interpolate"] + extra)),
        st.tuples(st.just("again"), which, st.integers(0, 9999), o(["call", "interpolate"] + extra)),
        st.tuples(st.just("grid"), which),
        st.tuples(st.just("nodes"), which),
        st.tuples(st.just("badsize"), which),
        st.tuples(st.just("scribble"), which),
    ]
    if cubic:
        alts += [
            st.tuples(st.just("badvals"), which, st.integers(0, 99), o(["nan", "inf", "-inf"])),
            st.tuples(st.just("badpts"), which, st.integers(0, 99), o(["nan", "inf"])),
            st.tuples(st.just("mutate"), which),
        ]
    return [list(x) for x in draw(st.lists(st.one_of(*alts), min_size=2, max_size=12))]


def strat(cls, d):
    @st.composite
    def s(draw):
        return {"cls": cls, "d": d, "axes": [draw(gen.axes("u" * d)), draw(gen.axes("u" * d))],
                "init": [draw(st.one_of(st.none(), gen.values())), draw(st.one_of(st.none(), gen.values()))],
                "ops": draw(ops(d, cls))}

    return s


def check(case, ctx):
    L = sp.lib()
    cls, d = case["cls"], case["d"]
    cubic, multi = cls.startswith("Cubic"), cls.endswith("s")
    k = 3 if cubic else 1
    K = getattr(L, cls)
    objs, model, given, special = [], [None, None], [None, None], [False, False]
    nsets = [0, 0]
    results = []
    for i in (0, 1):
        axs = case["axes"][i]
        args = [[x["a"] for x in axs], [x["b"] for x in axs], [x["n"] for x in axs]]
        if i:
            args = [np.array(z) for z in args]
        if case["init"][i] is None:
            objs.append(ctx.call(cls, K, *args))
        else:
            V = gen.build_values(case["init"][i], gen.shape_of(axs) + ((2,) if multi else ()))
            model[i] = V.copy()
            given[i] = V
            nsets[i] = 1
            objs.append(ctx.call(cls, K, args[0], args[1], args[2], V))
    nt = False
    last, lastP = [0, 0], [None, None]
    for step, op in enumerate(case["ops"]):
        kind, i = op[0], op[1]
        obj, axs = objs[i], case["axes"][i]
        shape = gen.shape_of(axs)
        w = "%s %dd step %d %s" % (cls, d, step, kind)
        if kind == "set":
            m = op[4]
            V = gen.build_values(op[2], shape + ((m,) if multi else ()))
            how = op[3]
            if how == "nudge" and model[i] is not None:  # values close to the current ones
                W = model[i]
                m = W.shape[-1]
                V = W * (1 + 1e-6 * np.random.RandomState(op[2][1] % 2**31).uniform(-1, 1, W.shape)) + 1e-9 * (V.flat[0] > 0)
                ctx.label("slightly different values")
            if how == "int":
                V = np.clip(np.round(V * 8), -1e15, 1e15)
            arg = V.copy()
            if how == "flat":
                arg = arg.reshape((-1, m) if multi else (-1,))
            elif how == "list":
                arg = arg.tolist()
            elif how == "F":
                arg = np.asfortranarray(arg)
            elif how == "int":
                arg = arg.astype(np.int64)
            elif (how == "same" and given[i] is not None and given[i].size == arg.size
                    and given[i].dtype == float and given[i].flags.c_contiguous):
                # the array handed over before, overwritten with the new values
                given[i].reshape(-1)[...] = arg.reshape(-1)
                arg = given[i]
                ctx.label("same array, new values")
            ctx.call(w, obj.set_values, arg)
            model[i] = V.copy()
            given[i] = arg if isinstance(arg, np.ndarray) else None
            nsets[i] += 1
            if nsets[i] > 1:
                special[i] = True
                ctx.label("values replaced")
        elif kind in ("eval", "again"):
            if model[i] is None:
                continue
            if kind == "eval":
                P = gen.build_points(axs, op[2])
            else:  # as many points as in the previous evaluation of this object
                P = gen.bulk(axs, [op[2], last[i] or 3, 1, 1])
                if lastP[i] is not None and op[2] % 2:
                    lastP[i][...] = P
                    P = lastP[i]
                    ctx.label("same array, new points")
                ctx.label("same number of points as before")
            last[i], lastP[i] = len(P), P
            how = op[3]
            V = model[i]
            R = ref.interpolant(axs, V, P, k=k)
            m = V.shape[-1] if multi else None
            shp = (len(P), m) if multi else (len(P),)
            idx = np.arange(len(P))
            P0 = P.copy()
            if how == "call":
                got = sp.expect_array(w, ctx.call(w, obj, P), shp)
            elif how == "values":
                got = np.full(shp, np.nan)
                r = ctx.call(w, obj.interpolate, P, got)
                require(r is None or np.array_equal(r, got), w + ": the array returned differs from the one given for the results")
                ctx.label("results into a given array")
            elif how == "diff":
                r = ctx.call(w, obj.interpolate, P, diff=True)
                require(len(r) == 2, w + ": values and gradients expected")
                got = sp.expect_array(w, r[0], shp)
                dv = sp.expect_array(w + " gradients", r[1], (len(P), d, m))
                for j in range(d):
                    Rj = ref.interpolant(axs, V, P, k=k, orders=tuple(int(q == j) for q in range(d)))
                    sp.compare("%s gradient along axis %d" % (w, j), Rj, idx, dv[:, j, :], P)
                if len(P):
                    results.append((dv, dv.copy()))
                ctx.label("gradients")
            elif how == "interpolate":
                got = sp.expect_array(w, ctx.call(w, obj.interpolate, P), shp)
            elif how == "F":
                got = sp.expect_array(w, ctx.call(w, obj, np.asfortranarray(P)), shp)
            else:
                if not len(P):
                    continue
                idx = np.array([len(P) // 2])
                if how == "one_interp" and cls != "CubicSpline":
                    how = "one"
                f = obj if how == "one" else obj.interpolate
                r = ctx.call(w, f, P[idx[0]].copy())
                require(np.shape(r) == ((m,) if multi else ()), lambda: "%s at one point returned shape %s" % (w, np.shape(r)))
                got = np.asarray(r, dtype=float).reshape((1, m) if multi else (1,))
                ctx.label("one point")
            require(np.array_equal(P, P0), w + ": the points were modified")
            sp.compare(w, R, idx, got, P)
            if isinstance(got, np.ndarray) and got.size and got.flags.writeable:
                results.append((got, got.copy()))
            if special[i] and len(idx):
                nt = True
        elif kind in ("grid", "nodes"):
            g = np.asarray(ctx.call(w, lambda: obj.grid))
            exp = ref.enum_nodes([ref.ax_nodes(a) for a in axs])
            if not cubic:
                exp = exp.T
            require(g.shape == exp.shape, lambda: "%s: grid has shape %s, expected %s" % (w, g.shape, exp.shape))
            sc = 1e-12 * np.array([abs(a["a"]) + abs(a["b"]) for a in axs])
            sc = sc if cubic else sc[:, None]
            require(np.all(np.abs(g - exp) <= sc), "%s: grid does not list the nodes in order" % w)
            if kind == "nodes" and model[i] is not None:
                # values at the nodes, in the order of the grid attribute
                N = exp.shape[0] if cubic else exp.shape[1]
                sel = np.unique(np.linspace(0, N - 1, min(N, 40)).astype(int))
                pts = np.ascontiguousarray((g if cubic else g.T)[sel])
                got = np.asarray(ctx.call(w, obj, pts))
                V = model[i].reshape((-1, model[i].shape[-1]) if multi else (-1,))[sel]
                tol = ref.interpolant(axs, model[i], pts, k=k).tol
                # the grid attribute may differ from the true nodes by rounding
                tol = tol + 1e-10 * np.max(np.abs(model[i]), initial=0)
                require(np.all(np.abs(got - V) <= tol), "%s: flattened values are not reproduced at the nodes listed by grid" % w)
                if special[i]:
                    nt = True
        elif kind == "badsize":
            n = int(np.prod(shape))
            arr = np.ones((n + 1, 2)) if multi else np.ones(n + 1)
            try:
                obj.set_values(arr)
            except Exception:
                special[i] = True
                ctx.label("rejected size")
            else:
                return  # not claimed: nothing more to judge on this object
        elif kind == "badvals":
            V = gen.build_values(["int", 5, 0], shape + ((2,) if multi else ()))
            V.flat[op[2] % V.size] = float(op[3])
            ctx.rejects("%s: set_values with a %s" % (w, op[3]), obj.set_values, V)
            special[i] = True
            ctx.label("rejected values")
        elif kind == "badpts":
            if model[i] is None:
                continue
            P = np.array([[x["a"] for x in axs]] * 3)
            P.flat[op[2] % P.size] = float(op[3])
            ctx.rejects("%s: evaluation at a %s" % (w, op[3]), obj, P)
            if cls == "CubicSpline":
                ctx.rejects("%s: evaluation at one %s" % (w, op[3]), obj.interpolate, np.full(d, float(op[3])))
            special[i] = True
            ctx.label("rejected points")
        elif kind == "mutate":
            if given[i] is not None:
                given[i][...] = 77
                special[i] = True
                ctx.label("caller's array changed")
        elif kind == "scribble":
            # results belong to the caller
            for got, cp in results:
                require(np.array_equal(got, cp), "%s: an array returned earlier changed" % w)
                got[...] = -1e9
            results = []
            special[i] = special[i] or model[i] is not None
    for got, cp in results:
        require(np.array_equal(got, cp), "an array returned earlier changed")
    ctx.label(cls, "%dd" % d)
    ctx.nontrivial(nt)


def units(tier, seed):
    us = []
    for cls in CLS:
        for d in (1, 2, 3, 4):
            env = {"NUMBA_OPT": "0"} if d == 4 and tier == "quick" else None
            us.append(Unit("%s-%dd" % (cls, d), strat(cls, d), check, quick={1: 250, 2: 220, 3: 150, 4: 80}[d],
                           cost={1: 3, 2: 5, 3: 9, 4: 20}[d] * (2 if cls.startswith("Cubic") else 1), env=env))
    return us
