from hypothesis import strategies as st
import numpy as np

from .. import ref2, smol
from ..core import Unit, require

RULE = ("cases: a grid, two interpolants on it and a sequence of update_theta / interpolate with any subset of results / interpolation at the grid points; a model "
        "keeps the polynomial (random combination of the Smolyak basis, or the interpolating one for arbitrary data) last given to each; "
        "non-trivial: interpolation after values were replaced, or with at least two kinds of results, on a grid of level above 1")
ASSUMPTIONS = ["tolerance 1e-10 x sum of |basis| |inverse basis matrix| |data| (conditioning of the interpolation problem)",
               "at least one result is requested"]


@st.composite
def cases(draw):
    which, seed = st.integers(0, 1), st.integers(0, 99999)
    flags = st.tuples(st.booleans(), st.booleans(), st.booleans(), st.booleans()).filter(any)
    op = st.one_of(
        st.tuples(st.just("set"), which, seed, st.sampled_from(["poly", "data", "int"]), st.booleans()),
        st.tuples(st.just("interp"), which, seed, flags),
        st.tuples(st.just("interp"), which, seed, flags),
        st.tuples(st.just("default"), which, seed),
        st.tuples(st.just("again"), which, seed),
        st.tuples(st.just("nodes"), which),
    )
    return {"g": draw(smol.gridspec(maxpts=150, dmax=6)), "m": draw(st.sampled_from([None, None, None, 1, 2, 3])),
            "init": [draw(st.integers(0, 9999)), draw(st.integers(0, 9999))], "ops": [list(o) for o in draw(st.lists(op, min_size=2, max_size=8))]}


def check(case, ctx):
    from interpolation.smolyak import SmolyakInterp

    spec, m = case["g"], case["m"]
    d = spec["d"]
    sg = smol.make(ctx, spec)
    pts, polys = ref2.sparse(d, spec["mu"])
    p = smol.match_rows("cube_grid", sg.cube_grid, pts, 1e-12)
    Bg = ref2.basis(polys, pts).astype(float)
    Binv = np.linalg.inv(Bg)
    aB = np.abs(Binv)
    n = len(polys)
    tail = () if m is None else (m,)
    grid = np.array(sg.grid)
    held = []

    def draw_values(seed, how):
        r = np.random.RandomState(seed)
        if how == "poly":
            th = np.round(r.uniform(-2, 2, (n,) + tail), 3)
            f = Bg @ th
        elif how == "int":
            f = r.randint(-9, 10, (n,) + tail).astype(float)
            th = Binv @ f
        else:
            f = r.standard_normal((n,) + tail) * 10.0 ** r.choice([-2, -1, 0, 1, 2, -12, 12])
            th = Binv @ f
        vals = np.empty_like(f)
        vals[p] = f  # in the order of the object's grid
        if how == "int":
            vals = vals.astype(["i8", "i4", "f4", "i2"][seed % 4])
        elif seed % 5 == 0:
            vals = np.asfortranarray(vals)
        elif seed % 5 == 1:
            b = np.full((2 * n,) + tail, -777.5)
            b[::2] = vals
            vals = b[::2]
        return vals, f, th

    objs, model, sets, given = [], [], [0, 0], []
    xbuf = {}
    for i in (0, 1):
        vals, f, th = draw_values(case["init"][i], ["poly", "data", "int"][(i + case["init"][i]) % 3])
        given.append(vals)
        objs.append(ctx.call("SmolyakInterp", SmolyakInterp, sg, vals))
        model.append((f, th))
    nt = False
    last = None
    for step, op in enumerate(case["ops"]):
        kind, i = op[0], op[1]
        what = "SmolyakInterp(d=%d, mu=%s) step %d %s" % (d, spec["mu"], step, kind)
        if kind == "set":
            vals, f, th = draw_values(op[2], op[3])
            if len(op) > 4 and op[4] and given[i].dtype == vals.dtype:  # the caller overwrites the array given before and hands it over again
                given[i][...] = vals
                ctx.label("same array, new values")
            else:
                given[i] = vals
            ctx.call(what, objs[i].update_theta, given[i])
            model[i] = (f, th)
            sets[i] += 1
            ctx.label("values replaced")
            continue
        f, th = model[i]
        sc = aB @ np.abs(f)
        if kind == "nodes":
            X, flags = grid.copy(), (True, False, False, False)
        else:
            r = np.random.RandomState(op[2])
            N = r.randint(1, 6) if op[2] % 11 else max(1, min(270, 30000 // n))
            X = smol.to_dom(spec, r.uniform(-1.1, 1.1, (N, d)))
            if kind == "again" and last is not None:  # the points of the last call but for one coordinate
                Y = last.copy()
                j = r.randint(0, len(Y)), r.randint(0, d)
                Y[j] = X[(0, j[1])]
                X = Y
                ctx.label("nearly the points of the last call")
            elif op[2] % 7 == 0:
                X = np.asfortranarray(X)
            elif op[2] % 2:
                xbuf.setdefault(N, np.empty_like(X))[...] = X
                X = xbuf[N]
            flags = (True, False, False, False) if kind != "interp" else tuple(op[3])
        C = smol.to_cube(spec, X)
        E = ref2.basis(polys, C).astype(float)
        # error of the coordinates enters through the derivatives of the basis
        cerr = 8 * smol.dom_tol(spec) / smol.width(spec)
        DE = [np.abs(ref2.basis(polys, C, j).astype(float)) for j in range(d)]
        aE = np.abs(E) * 1e-10 + sum(DE[j] * cerr[j] for j in range(d))
        X0 = X.copy()
        last = X0
        if kind != "interp":
            out = ctx.call(what, objs[i].interpolate, X)
        else:
            out = ctx.call(what, objs[i].interpolate, X, *flags) if step % 2 else ctx.call(
                what, objs[i].interpolate, X, interp=flags[0], deriv=flags[1], deriv_th=flags[2], deriv_X=flags[3])
        require(np.array_equal(X, X0), what + " modified the points")
        cnt = sum(flags)
        if cnt == 1:
            require(isinstance(out, np.ndarray), lambda: "%s with one result requested returned %s" % (what, type(out).__name__))
            res = [out]
        else:
            require(isinstance(out, (list, tuple)) and len(out) == cnt, lambda: "%s: %d results requested, returned %s" % (
                what, cnt, type(out).__name__ if not isinstance(out, (list, tuple)) else len(out)))
            res = list(out)
        res.reverse()
        N = len(X)

        def cmp(name, got, exp, tol):
            require(np.shape(got) == exp.shape, lambda: "%s: %s has shape %s, expected %s (flags %s)" % (what, name, np.shape(got), exp.shape, flags))
            bad = ~(np.abs(got - exp) <= tol)
            require(not bad.any(), lambda: "%s: %s at %s: got %r, expected %r, tol %.2g (flags %s)" % (
                what, name, X[np.argwhere(bad)[0][0]].tolist(), float(np.asarray(got)[bad][0]), float(exp[bad][0]), float(np.broadcast_to(tol, exp.shape)[bad][0]), flags))

        if flags[0]:
            cmp("values", res.pop(), E @ th, aE @ sc + 1e-290)
        if flags[1]:
            grad = res.pop()
            require(np.shape(grad) == (N, d) + tail, lambda: "%s: gradient has shape %s" % (what, np.shape(grad)))
        if flags[2]:
            # columns follow the object's own basis: coefficients reproduce the values
            B2 = res.pop()
            require(np.shape(B2) == (N, n), lambda: "%s: derivative with respect to coefficients has shape %s" % (what, np.shape(B2)))
            pin = [tuple(int(v) for v in q) for q in sg.pinds]
            pos = {q: j for j, q in enumerate(polys)}
            require(sorted(pin) == sorted(polys), what + ": basis polynomials")
            perm = [pos[q] for q in pin]
            cmp("derivative with respect to the coefficients", B2, E[:, perm], aE[:, perm] + 1e-12)
            th2 = np.asarray(objs[i].theta)
            cmp("coefficients", th2, th[perm], 1e-10 * (sc[perm] + np.max(sc, axis=0) * 1e-3) + 1e-290)
        if flags[3]:
            JX = res.pop()
            exp = np.empty((N, n))
            tol = np.empty((N, n))
            exp[:, p] = E @ Binv
            tol[:, p] = aE @ aB
            cmp("derivative with respect to the grid values", JX, exp, tol + 1e-10 * np.abs(exp).max())
        if kind == "nodes":
            vals = np.empty_like(f)
            vals[p] = f
            cmp("values at the grid points", out, vals, aE @ sc + 1e-290)
            ctx.label("at the grid points")
        if cnt > 1:
            ctx.label("several results")
        ctx.label("%d results" % cnt)
        held.append((out if isinstance(out, np.ndarray) else out[0], None))
        held[-1] = (held[-1][0], np.array(held[-1][0]))
        if (sets[i] or cnt > 1) and np.max(spec["mu"]) > 1:
            nt = True
    for a, b in held:
        require(np.array_equal(a, b), "a result returned earlier changed")
    smol.labels(ctx, spec)
    ctx.label("vector-valued" if m else "scalar")
    ctx.nontrivial(nt)


def units(tier, seed):
    return [Unit("history%d" % i, cases, check, quick=350, thorough=3000, cost=6) for i in range(8)]
