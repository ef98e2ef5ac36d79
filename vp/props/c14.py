import base64
import importlib
import os
import pickle
import random
import subprocess
import sys
import threading

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, ref2, sp
from ..core import Unit, Violation, jdump
from .c13 import rand_axes

RULE = ("each unit is a fresh process and a random selection of call signatures over all functions of the package; cases: sequences of calls (signature and data, drawn from "
        "small pools so that calls repeat), with the results obtained so far overwritten by the caller in between; every call is compared with the reference and, when it differs, "
        "with the same call alone in a new process; repeats have to be bit-identical, results kept so far must not change; "
        "non-trivial: a repeated call, or a call preceded by one of the same function with other types or options")
ASSUMPTIONS = ["a call that differs from the reference but returns the same alone is not a matter of history and is not reported here",
               "results that go through LAPACK/BLAS (Smolyak, least squares) are compared to 1e-9 instead of bit by bit",
               "prefilter(k=1) returns the values themselves and the grid attribute of an object belongs to the object"]

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


# ---------------------------------------------------------------- the calls


_BUF = {}
_SLOT = [None]


def _same(arr):
    """for some data sets the caller fills the same arrays anew for every call"""
    if _SLOT[0] is None:
        return arr
    _SLOT[0] += 1
    buf = _BUF.setdefault((_SLOT[0], arr.shape), np.empty_like(arr))
    buf[...] = arr
    return buf


def _pts(axs, r, n=5):
    return _same(gen.bulk(axs, [int(r.randint(0, 99999)), n, 1, 1]))


def _vals(shape, r):
    return _same(np.round(r.uniform(-3, 3, shape), 6))


_POOL = {}


_OWN = threading.local()


def pooled(key, make):
    """objects live on and are used by later calls; a process of its own makes a new one"""
    key = (getattr(_OWN, "who", None), key)
    if key not in _POOL:
        _POOL[key] = make()
    return _POOL[key]


def perform(spec):
    """-> list of (name, result, expected, tolerance), exact flag"""
    op = spec["op"]
    _SLOT[0] = 0 if spec["data"] >= 2 and not hasattr(_OWN, "who") else None
    r = np.random.RandomState(spec["data"] * 7919 + 17)
    L = importlib.import_module("interpolation.splines")
    I = importlib.import_module("interpolation")
    if op in ("eval", "diff"):
        axs = rand_axes(spec["types"], spec["data"])
        grid = ref.grid_obj(axs)
        k, form, mode = spec["k"], spec["form"], spec["mode"]
        m = 2 if form.startswith("m") else None
        V = _vals(gen.shape_of(axs) + ((m,) if m else ()), r)
        P = _pts(axs, r)
        C = V if k == 1 else L.filter_cubic(grid, V)
        if op == "diff":
            orders = [tuple(o) for o in spec["orders"]]
            kw = dict(k=k, diff=str(tuple(orders)), extrap_mode=mode)
            P = P[~ref.outside(axs, P)] if mode == "nearest" else P
            if form == "vec":
                got = L.eval_spline(grid, C, P, out=None, **kw)
            elif form == "mvec":
                got = L.eval_spline(grid, C, P, out=None, **kw)
            else:
                got = np.array([L.eval_spline(grid, C, p.copy(), out=None, **kw) for p in P]).reshape(len(P), len(orders))
            out = []
            for j, o in enumerate(orders):
                R = ref.interpolant(axs, V, P, k=k, orders=o, mode=mode)
                out.append(("order %s" % (o,), np.asarray(got)[..., j], R.alts, R.tol))
            return out, [got], True
        f = getattr(L, "eval_linear" if k == 1 else "eval_cubic")
        extra = () if mode == "default" else (sp.opt(mode),)
        md = "linear" if mode == "default" else mode
        if form in ("vec", "mvec"):
            got = f(grid, C, P, *extra)
        elif form in ("vec_out", "mvec_out"):
            got = np.full((len(P),) + ((m,) if m else ()), np.nan)
            f(grid, C, P, got, *extra)
        elif form == "mpoint":
            rows = [f(grid, C, p.copy(), *extra) for p in P]
            R = ref.interpolant(axs, V, P, k=k, mode=md)
            return [("values", np.array(rows).reshape(len(P), m), R.alts, R.tol)], rows, True
        elif form == "point":
            got = np.array([f(grid, C, p.copy(), *extra) for p in P])
        else:
            got = np.array([f(grid, C, tuple(float(v) for v in p), *extra) for p in P])
        R = ref.interpolant(axs, V, P, k=k, mode=md)
        return [("values", got, R.alts, R.tol)], [got], True
    if op == "filter":
        axs = rand_axes("u" * spec["d"], spec["data"])
        grid = ref.grid_obj(axs)
        shape = gen.shape_of(axs)
        m = spec["m"]
        V = _vals(shape + ((m,) if m else ()), r)
        cs = tuple(n + 2 for n in shape) + ((m,) if m else ())
        h = spec["how"]
        FC = importlib.import_module("interpolation.splines.filter_cubic")
        a, b, o = [x["a"] for x in axs], [x["b"] for x in axs], list(shape)
        if h == "alloc":
            C = L.filter_cubic(grid, V)
        elif h == "out":
            C = np.full(cs, np.nan)
            L.filter_cubic(grid, V, C)
        elif h == "prefilter":
            C = L.prefilter(grid, V, k=3)
        else:
            C = (FC.filter_mcoeffs if m else FC.filter_coeffs)(np.array(a), np.array(b), o, V)
        return [("coefficients", C, [ref.filter_ref(V, spec["d"])], 1e-10 * ref.filter_scale(V, spec["d"]))], [C], True
    if op == "compat":
        d = spec["d"]
        axs = rand_axes("u" * d, spec["data"])
        a, b = np.array([x["a"] for x in axs]), np.array([x["b"] for x in axs])
        o = np.array([x["n"] for x in axs])
        P = _pts(axs, r)
        fn = spec["fn"]
        multi = fn.endswith(("splines", "_G")) or fn == "vec_multilinear_interpolation"
        tail = (2,) if multi else ()
        if "multilinear" in fn:
            C = _vals(gen.shape_of(axs) + tail, r)
            got = getattr(importlib.import_module("interpolation.splines.multilinear_numba"), fn)(a, b, o, C, P)
            R = ref.interpolant(axs, C, P, k=1)
            return [("values", got, R.alts, R.tol)], [got], True
        C = _vals(tuple(n + 2 for n in gen.shape_of(axs)) + tail, r)
        f = getattr(importlib.import_module("interpolation.splines.eval_cubic"), fn)
        R = ref.interpolant(axs, C, P, k="b")
        if fn.endswith("_G"):
            v, dv = f(a, b, o, C, P)
            res = [("values", v, R.alts, R.tol)]
            for j in range(d):
                Rj = ref.interpolant(axs, C, P, k="b", orders=tuple(int(q == j) for q in range(d)))
                res.append(("gradient %d" % j, dv[:, j], Rj.alts, Rj.tol))
            return res, [v, dv], True
        if fn.startswith("vec"):
            got = f(a, b, o, C, P)
            return [("values", got, R.alts, R.tol)], [got], True
        rows = [f(a, b, o, C, p.copy()) for p in P]
        return [("values", np.array(rows).reshape((len(P),) + tail), R.alts, R.tol)], [x for x in rows if isinstance(x, np.ndarray)], True
    if op in ("interp", "mlinterp"):
        axs = rand_axes(spec["types"], spec["data"])
        grid = ref.grid_obj(axs)
        V = _vals(gen.shape_of(axs), r)
        P = _pts(axs, r)
        form = spec["form"]
        g = (lambda *p: I.interp(*(grid + (V,) + p))) if op == "interp" else (lambda p: I.mlinterp(grid, V, p))
        if form == "vec":
            got = g(P)
        elif form == "product" and len(axs) == 1:
            got = g(P[:, 0].copy())
        elif form == "product":
            X, Y = P[:, 0].copy(), P[:3, 1].copy()
            raw = g(X, Y)
            P = np.array([(x, y) for x in X for y in Y])
            R = ref.interpolant(axs, V, P, k=1, mode="nearest")
            return [("values", raw.ravel(), R.alts, R.tol)], [raw], True
        elif form == "tuple":
            got = np.array([g(tuple(float(v) for v in p)) for p in P])
        else:
            got = np.array([g(*[float(v) for v in p]) for p in P])
        R = ref.interpolant(axs, V, P, k=1, mode="nearest" if op == "interp" else "linear")
        return [("values", got, R.alts, R.tol)], [got], True
    if op == "hermite":
        H = importlib.import_module("interpolation.splines.hermite")
        axs = rand_axes("n", spec["data"])
        x = ref.ax_nodes(axs[0])
        y, yp = _vals(x.shape, r), _vals(x.shape, r)
        P = _pts(axs, r)[:, 0].copy()
        e, t = ref2.hermite(x, y, yp, P)
        got = H.HermiteInterpolationVect(P, x, y, yp) if spec["vec"] else np.array([H.HermiteInterpolation(float(p), x, y, yp) for p in P])
        return [("values", got, [e], t)], [got], True
    if op == "obj":
        d = spec["d"]
        who = spec["data"] % 2
        axs = rand_axes("u" * d, who)
        multi, cubic = spec["cls"].endswith("s"), spec["cls"].startswith("C")
        V = _vals(gen.shape_of(axs) + ((2,) if multi else ()), np.random.RandomState(who))

        def make():
            s = getattr(L, spec["cls"])([x["a"] for x in axs], [x["b"] for x in axs], [x["n"] for x in axs])
            s.set_values(V.copy())
            return s

        s = pooled((spec["cls"], d, who), make)
        P = _pts(axs, r)
        how = spec.get("how", "call")
        if how == "one":
            P = P[:1]
            got = np.asarray(s(P[0].copy())).reshape((1, 2) if multi else (1,))
        else:
            got = s(P) if how == "call" else s.interpolate(P)
        R = ref.interpolant(axs, V, P, k=3 if cubic else 1)
        g = np.array(s.grid)
        e = ref.enum_nodes([ref.ax_nodes(a) for a in axs])
        e = e if cubic else e.T
        return [("values", got, R.alts, R.tol), ("grid", g, [e], 1e-12 * (1 + np.abs(e).max()))], [got], True
    if op in ("poly", "polyder"):
        CP = importlib.import_module("interpolation.complete_poly")
        n, d = spec["n"], spec["d"]
        z = _vals((n,) if spec["vec"] else (n, 4), r)
        pr = np.array(ref2.PRIMES[:n], dtype=float)
        got = CP.complete_polynomial(z, d) if op == "poly" else CP.complete_polynomial_der(z, d, spec["data"] % n)
        exps = [ref2.identify(v, n) for v in CP.complete_polynomial(pr, d)]
        Z = z.reshape(n, -1).astype(ref2.LD)
        if None in exps:
            return [("basis", got, [got + 1], 0.0)], [got], True
        E = np.array([ref2.mono(e, Z) if op == "poly" else ref2.dmono(e, Z, spec["data"] % n) for e in exps], dtype=float).reshape(got.shape)
        return [("basis", got, [E], 1e-12 * (1 + np.abs(E)))], [got], True
    if op == "fit":
        CP = importlib.import_module("interpolation.complete_poly")
        n, d = spec["n"], spec["d"]
        who = np.random.RandomState(spec["data"] % 2)
        c = {e: round(float(who.uniform(-2, 2)), 3) for e in sorted(ref2.monomials(n, d))}
        f = lambda S: sum(v * ref2.mono(e, S.T) for e, v in c.items()).astype(float)  # noqa: E731

        def make():
            p = CP.CompletePolynomial(n, d)
            S = who.uniform(-1, 1, (60, n))
            p.fit_values(S, f(S))
            return p

        p = pooled(("fit", n, d, spec["data"] % 2), make)
        Q = r.uniform(-1, 1, (4, n))
        got = p(Q)
        dv = p.der(Q, spec["data"] % n)
        df = sum(v * ref2.dmono(e, Q.T, spec["data"] % n) for e, v in c.items()) * np.ones(4)
        return [("values", got, [f(Q)], 1e-7), ("derivative", dv, [df.astype(float)], 1e-6)], [got, dv], False
    if op == "smol":
        SM = importlib.import_module("interpolation.smolyak")
        d, mu = spec["d"], spec["mu"]
        who = np.random.RandomState(spec["data"] % 2)
        lb = np.round(who.uniform(-2, 0, d), 3)
        ub = np.round(who.uniform(1, 4, d), 3)
        key = (d, str(mu), spec["data"] % 2)
        g = pooled(("grid",) + key, lambda: SM.SmolyakGrid(d, mu if isinstance(mu, int) else np.array(mu), lb=lb.copy(), ub=ub.copy()))
        pts, polys = ref2.sparse(d, mu)
        srt = lambda a: np.array(sorted(map(tuple, np.round(a, 9) + 0.0)))  # noqa: E731
        res = [("points", srt(np.array(g.cube_grid)), [srt(pts)], 1e-8)]
        held = []
        if spec["what"] == "interp":
            th = np.round(who.uniform(-2, 2, len(polys)), 3)
            to = lambda X: (2 * X - lb - ub) / (ub - lb)  # noqa: E731
            f = ref2.basis(polys, to(np.array(g.grid))).astype(float) @ th
            si = pooled(("si",) + key, lambda: SM.SmolyakInterp(g, f))
            if spec["data"] == 4:  # other values in between
                si.update_theta(2 * f)
                si.update_theta(f)
            X = r.uniform(0, 1, (4, d))
            v, gr = si.interpolate(X, deriv=True)
            res.append(("values", v, [ref2.basis(polys, to(X)).astype(float) @ th], 1e-7))
            for j in range(d):
                res.append(("gradient", gr[:, j], [(ref2.basis(polys, to(X), j).astype(float) @ th) * 2 / (ub[j] - lb[j])], 1e-5))
            held += [v, gr]
        return res, held, False
    if op == "blocks":
        SM = importlib.import_module("interpolation.smolyak")
        n = 1 + spec["data"] % 6
        x = _vals((3,), r) / 3
        T = SM.cheby2n(x, n + 1, kind=spec["kind"])
        P = [np.ones(3), x * spec["kind"]]
        for _ in range(n):
            P.append(2 * x * P[-1] - P[-2])
        S = SM.s_n(n)
        A = SM.a_chain(n)
        union = np.array(sorted(v for k in range(1, n + 1) for v in A[k]))
        num = np.array([q for k in range(1, n + 1) for q in SM.phi_chain(n)[k]])
        return [("cheby2n", T, [np.array(P)], 1e-9 * (1 + np.abs(np.array(P)))), ("s_n", np.sort(S), [ref2.extrema(n)], 1e-13),
                ("a_chain", union, [ref2.extrema(n)], 1e-13), ("phi_chain", np.sort(num).astype(float), [np.arange(1.0, ref2.sizes(n) + 1)], 0.0)], [T, S], True
    if op == "grid":
        CA = importlib.import_module("interpolation.cartesian")
        axs = rand_axes(spec["types"], spec["data"])
        if spec["fn"] == "nodes":
            got = L.nodes(ref.grid_obj(axs))
        elif spec["fn"] == "mlinspace":
            axs = rand_axes("u" * len(axs), spec["data"])
            got = CA.mlinspace([x["a"] for x in axs], [x["b"] for x in axs], [x["n"] for x in axs], order=spec["order"])
        else:
            got = CA.cartesian([ref.ax_nodes(a) for a in axs], order=spec["order"])
        e = ref.enum_nodes([ref.ax_nodes(a) for a in axs], "C" if spec["fn"] == "nodes" else spec["order"])
        return [("nodes", got, [e], 1e-12 * (1 + np.abs(e)))], [got], True
    if op == "basis":
        BS = importlib.import_module("interpolation.splines.basis_splines")
        u = np.cumsum(r.uniform(0.1, 1, 9))
        x = [float(v) for v in r.uniform(u[0], u[-1], 4)]
        p = spec["p"]
        got = np.array([BS.B(p, u, 1, v) for v in x])
        return [("values", got, [np.array([float(ref2.bspline(p, u.tolist(), 1, v)) for v in x])], 1e-10)], [got], True
    raise ValueError(op)


def differs(checks):
    for name, got, alts, tol in checks:
        got = np.asarray(got, dtype=float)
        if got.shape != np.shape(alts[0]):
            return "%s has shape %s, expected %s" % (name, got.shape, np.shape(alts[0]))
        ok = np.zeros(got.shape, dtype=bool)
        for a in alts:
            ok |= np.abs(got - a) <= tol
        if not ok.all():
            return "%s: got %r, expected %r" % (name, float(got[~ok].ravel()[0]), float(np.asarray(alts[0])[~ok].ravel()[0]))
    return None


def digest(checks):
    return [np.array(c[1], dtype=float) for c in checks]


def alone_main():
    """stdin: spec; stdout: pickled results or None if the call fails"""
    import json

    spec = json.load(sys.stdin)
    real = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    try:
        checks, _, _ = perform(spec)
        r = digest(checks)
    except Exception as e:  # noqa: BLE001
        r = "%s: %s" % (type(e).__name__, str(e)[:200])
    real.write(base64.b64encode(pickle.dumps(r)).decode())
    real.flush()


_ALONE = {}


def alone(spec):
    key = jdump(spec)
    if key not in _ALONE:
        if len(_ALONE) >= 8:
            return None
        code = "import sys; sys.path.insert(0, %r); import vp; from vp.props.c14 import alone_main; alone_main()" % HERE
        p = subprocess.run([sys.executable, "-B", "-c", code], input=key, capture_output=True, text=True, timeout=240)
        if p.returncode != 0 or not p.stdout:
            return None
        _ALONE[key] = pickle.loads(base64.b64decode(p.stdout))
    return _ALONE[key]


# ---------------------------------------------------------------- histories


class History:
    def __init__(self):
        self.order, self.seen, self.exact = [], {}, {}
        self.held = []

    def call(self, spec, ctx=None, judge=True):
        key = jdump(spec)
        desc = " ".join("%s=%s" % kv for kv in spec.items())
        try:
            checks, results, exact = perform(spec)
        except Exception as e:  # noqa: BLE001
            if not judge:
                return
            a = alone(spec)
            if isinstance(a, list):
                raise Bad("after other calls, %s raises %s: %s; alone it returns a result" % (desc, type(e).__name__, str(e)[:200]))
            if isinstance(a, str):  # all calls of the catalogue are good: nothing is to be said about histories of calls which fail
                raise Bad("%s raises %s: %s (alone as well)" % (desc, type(e).__name__, str(e)[:200]))
            return
        if ctx is not None:
            ctx.calls += 1
        dig = digest(checks)
        if judge:
            why = differs(checks)
            if why:
                a = alone(spec)
                if isinstance(a, list):
                    for x, y, c in zip(dig, a, checks):
                        tol = c[3] if np.shape(x) == np.shape(c[2][0]) else 1e-9
                        if x.shape != y.shape or not np.all((np.abs(x - y) <= tol) | (x == y) | (np.isnan(x) & np.isnan(y))):
                            raise Bad("after other calls, %s returns something else than alone (%s)" % (desc, why))
            if key in self.seen:
                for x, y, c in zip(dig, self.seen[key], checks):
                    same = np.array_equal(x, y, equal_nan=True) if exact else x.shape == y.shape and np.all((np.abs(x - y) <= np.abs(c[3]) + 1e-9) | (np.isnan(x) & np.isnan(y)))
                    if not same:
                        raise Bad("repeating %s returns something else than the first time (%s)" % (desc, c[0]))
            for arr, cp, who in self.held:
                if not np.array_equal(arr, cp, equal_nan=True):
                    raise Bad("a result of %s changed during a later call (%s)" % (who, desc))
            for x in results:
                if isinstance(x, np.ndarray) and x.size:
                    for arr, _, who in self.held:
                        if np.may_share_memory(x, arr) and np.shares_memory(x, arr):
                            raise Bad("the result of %s shares memory with an earlier result of %s" % (desc, who))
        new = key not in self.seen
        if new:
            self.seen[key] = dig
            self.order.append(spec)
        for x in results:
            if isinstance(x, np.ndarray) and x.flags.writeable and x.size:
                self.held.append((x, x.copy(), desc))
        del self.held[:-40]
        return new

    def scribble(self):
        for arr, cp, who in self.held:
            if not np.array_equal(arr, cp, equal_nan=True):
                raise Bad("a result of %s changed during a later call" % who)
        for arr, _, _ in self.held:
            arr[...] = -12345.678
        self.held = []


class Bad(Exception):
    pass


_H = History()


def family(s):
    return (s["op"], s.get("fn"), s.get("k"), s.get("cls"))


def check(case, ctx):
    H = _H
    if "prelude" in case:  # replay: repeat the history that led there
        for spec in case["prelude"]:
            H.call(spec, judge=False)
    nt = False
    try:
        for step in case["steps"]:
            if step[0] == "scribble":
                H.scribble()
                ctx.label("results overwritten by the caller")
                continue
            spec = dict(step[1], data=step[2])
            if jdump(spec) in H.seen:
                nt = True
                ctx.label("repeated call")
            elif any(family(s) == family(spec) and s != spec for s in H.order):
                nt = True
                ctx.label("another call of the same function before")
            H.call(spec, ctx)
            ctx.label("op " + spec["op"])
    except Bad as b:
        prelude = list(case.get("prelude", [])) or [s for s in H.order]
        raise Violation(str(b), dict(case, prelude=prelude))
    ctx.nontrivial(nt)


# ---------------------------------------------------------------- signatures


def signatures(rnd, n_eval, n_other, dims):
    sg = []
    ty = lambda: "".join(rnd.choice("un") for _ in range(rnd.choice(dims)))  # noqa: E731
    ev = []
    while len(ev) < n_eval:
        q = rnd.random()
        if q < 0.5:
            k = rnd.choice([1, 1, 3])
            t = ty() if k == 1 else "u" * rnd.choice([d for d in dims if d < 3])
            ev.append(dict(op="eval", k=k, types=t, form=rnd.choice(["vec", "vec_out", "point", "tuple", "mvec", "mvec_out", "mpoint"]),
                           mode=rnd.choice(["default", "linear", "nearest", "constant"])))
        else:
            k = rnd.choice([1, 1, 3])
            t = ty() if k == 1 else "u" * rnd.choice([d for d in dims if d < 3])
            d = len(t)
            orders = [[rnd.randint(0, 1) for _ in range(d)] for _ in range(rnd.randint(1, 3))]
            ev.append(dict(op="diff", k=k, types=t, form=rnd.choice(["vec", "mvec", "point"]), mode=rnd.choice(["linear", "nearest", "constant"]), orders=orders))
    # pairs that differ in one respect only
    for s in list(ev[: n_eval // 2]):
        t = dict(s)
        w = rnd.choice(["mode", "types", "orders", "form", "k"])
        if w == "mode":
            t["mode"] = rnd.choice([m for m in ["linear", "nearest", "constant"] if m != s["mode"]])
        elif w == "types" and s["k"] == 1:
            i = rnd.randrange(len(s["types"]))
            t["types"] = s["types"][:i] + ("u" if s["types"][i] == "n" else "n") + s["types"][i + 1:]
        elif w == "orders" and s["op"] == "diff":
            t["orders"] = [o[::-1] for o in s["orders"][::-1]] if len(s["types"]) > 1 else [[1 - o[0]] for o in s["orders"]]
        elif w == "k" and "n" not in s["types"]:
            t["k"] = 4 - s["k"]
        elif s["op"] == "eval":
            t["form"] = rnd.choice(["vec", "mvec", "point", "mpoint"])
        ev.append(t)
    sg += ev
    oth = []
    D = [d for d in dims if d < 3]
    oth += [dict(op="filter", d=rnd.choice(dims), m=rnd.choice([None, 2]), how=h) for h in rnd.sample(["alloc", "out", "prefilter", "old"], 2)]
    oth += [dict(op="compat", d=rnd.choice(D), fn=f) for f in rnd.sample(["eval_cubic_spline", "vec_eval_cubic_spline", "eval_cubic_splines", "vec_eval_cubic_splines",
                                                                           "vec_eval_cubic_splines_G", "multilinear_interpolation", "vec_multilinear_interpolation"], 2)]
    for _ in range(3):
        t = ty()
        oth.append(dict(op="interp", types=t, form=rnd.choice(["vec", "tuple", "scalar"] + (["product"] if len(t) < 3 else []))))
        t = ty()
        oth.append(dict(op="mlinterp", types=t, form=rnd.choice(["vec", "tuple"])))
    oth += [dict(op="hermite", vec=v) for v in (0, 1)]
    rnd.shuffle(oth)
    sg += oth[:n_other]
    for c in rnd.sample(["LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines"], 2):
        sg += [dict(op="obj", d=rnd.choice(D), cls=c, how=h) for h in (["call", "interpolate"] if rnd.random() < 0.6 else ["call", "one"])]
    cheap = [dict(op="poly", n=rnd.randint(1, 4), d=rnd.randint(0, 5), vec=rnd.randint(0, 1)) for _ in range(3)]
    cheap += [dict(op="polyder", n=rnd.randint(1, 4), d=rnd.randint(1, 5), vec=rnd.randint(0, 1)) for _ in range(3)]
    cheap += [dict(op="fit", n=rnd.randint(1, 2), d=rnd.randint(1, 3)) for _ in range(2)]
    for w in ("grid", "interp", "interp"):
        d = rnd.choice([2, 3])
        cheap.append(dict(op="smol", d=d, mu=rnd.choice([1, 2, 3, [rnd.randint(1, 3) for _ in range(d)]]), what=w))
    cheap += [dict(op="blocks", kind=k) for k in (1.0, 2.0)]
    cheap += [dict(op="grid", fn=f, types=ty(), order=rnd.choice(["C", "F"])) for f in ("nodes", "mlinspace", "cartesian", "cartesian")]
    cheap += [dict(op="basis", p=rnd.randint(0, 4))]
    sg += rnd.sample(cheap, 9)
    uniq = []
    for s in sg:
        if s not in uniq:
            uniq.append(s)
    rnd.shuffle(uniq)
    return uniq


def strat(sigs, ndata):
    @st.composite
    def s(draw):
        step = st.one_of(
            st.tuples(st.just("call"), st.sampled_from(sigs), st.integers(0, ndata - 1)),
            st.tuples(st.just("call"), st.sampled_from(sigs), st.integers(0, ndata - 1)),
            st.tuples(st.just("call"), st.sampled_from(sigs), st.integers(0, 1)),
            st.tuples(st.just("scribble"), st.just(0), st.just(0)),
        )
        return {"steps": [list(x) for x in draw(st.lists(step, min_size=2, max_size=8))]}

    return s


def units(tier, seed):
    us = []
    th = tier == "thorough"
    n = 96 if th else 16
    for i in range(n):
        rnd = random.Random(seed * 1000 + i)
        dims = [1, 2] if i % 4 else ([1, 2, 3] if not th else [1, 2, 3, 4])
        sigs = signatures(rnd, 8 if not th else 14, 5 if not th else 9, dims)
        us.append(Unit("history%02d" % i, strat(sigs, 5), check, quick=70, thorough=250, cost=20, env={"VP_FRESH": "%d" % i}))
    return us
