import copy
import importlib
import os
import pickle
import random
import sys
import threading

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, ref2
from ..core import Unit, Violation, require
from . import c14

RULE = ("threads: cases are two or three lists of calls and a schedule (the number of lines of the package each thread runs before the next one goes on); the threads run "
        "under that schedule, every result is compared with the one obtained alone; non-trivial: at least two threads were inside the package at the same time; "
        "copies: an object, how it is copied (copy, deepcopy, pickle) and what is done to original and copy; non-trivial: one of the two got new data after copying")
ASSUMPTIONS = ["threads change only between lines of the Python code of the package (compiled code runs to its end, as under the interpreter lock)",
               "an object is not modified by one thread while another one uses it", "all functions are compiled before the threads start"]

LIMIT = 3.0


def root():
    import interpolation

    return os.path.dirname(os.path.abspath(interpolation.__file__)) + os.sep


class Turns:
    """lets one thread at a time run lines of the package, as the schedule says"""

    def __init__(self, n, sched):
        self.cv = threading.Condition()
        self.cur, self.live, self.free = 0, set(range(n)), False
        self.sched, self.k = sched, 0
        self.left = sched[0]
        self.inside = [0] * n
        self.overlap = 0
        self.at = set()

    def wait(self, me):
        with self.cv:
            if not self.cv.wait_for(lambda: self.free or self.cur == me, timeout=LIMIT):
                self.free = True  # somebody waits for a lock: no schedule from here on
                self.cv.notify_all()

    def pass_on(self):
        self.k += 1
        self.left = self.sched[self.k % len(self.sched)]
        rest = sorted(self.live)
        if rest:
            nxt = [q for q in rest if q > self.cur]
            self.cur = nxt[0] if nxt else rest[0]
        self.cv.notify_all()

    def line(self, me):
        if self.free:
            return
        self.wait(me)
        with self.cv:
            if self.free:
                return
            self.left -= 1
            if self.left <= 0 and len(self.live) > 1:
                if self.at - {me}:
                    self.overlap += 1
                self.pass_on()
        self.wait(me)

    def done(self, me):
        with self.cv:
            self.live.discard(me)
            self.at.discard(me)
            if self.cur == me:
                self.pass_on()
            self.cv.notify_all()


def work(me, turns, where, jobs, own, out, fn):
    if own:
        c14._OWN.who = me + 1
    else:
        c14._OWN.who = 0

    def local(frame, event, arg):
        turns.at.add(me)
        turns.line(me)
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(where):
            return local
        return None

    try:
        turns.wait(me)
        sys.settrace(tracer)
        try:
            for spec in jobs:
                out.append(("ok", fn(spec)))
                turns.at.discard(me)
        finally:
            sys.settrace(None)
    except Exception as e:  # noqa: BLE001
        out.append(("raised", "%s: %s" % (type(e).__name__, str(e)[:200])))
    finally:
        turns.done(me)


def run_threads(lists, sched, own, fn):
    turns = Turns(len(lists), sched)
    outs = [[] for _ in lists]
    ths = [threading.Thread(target=work, args=(i, turns, root(), jobs, own, outs[i], fn), daemon=True) for i, jobs in enumerate(lists)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(120)
        if t.is_alive():
            raise Violation("a thread did not end")
    return outs, turns


# ---------------------------------------------------------------- calls

TEMPLATES = [
    "{{for i in range(n)}}{{if i % 2}}odd {{i}}{{else}}even {{i}}{{endif}};\n{{endfor}}",
    "{{def f(x, y=2)}}<{{x}}:{{y}}>{{enddef}}{{for q in vals}}{{f(q)}}{{f(q, y=n)}}{{endfor}}",
    "{{py:\ntot = 0\nfor q in vals:\n    tot += q\n}}total {{tot}} {{default z = n}}{{z}}\n",
    "{{for lp, q in looper(vals)}}{{lp.number}}={{q}}{{if not lp.last}}, {{endif}}{{endfor}} {{n | repr}}",
]


def text(s):
    return [("text", np.frombuffer(s.encode(), dtype="u1").astype(float), None, 0.0)], True


def perform(spec):
    """-> checks, exact"""
    op = spec["op"]
    if op == "template":
        T = importlib.import_module("interpolation.tempita")
        t = c14.pooled(("template", spec["i"]), lambda: T.Template(TEMPLATES[spec["i"]], name="t%d" % spec["i"]))
        r = random.Random(spec["data"])
        return text(t.substitute(n=1 + spec["data"], vals=[r.randint(0, 9) for _ in range(4)]))
    if op == "code":
        CG = importlib.import_module("interpolation.splines.codegen")
        o = [None, ((0,) * spec["d"], (1,) + (0,) * (spec["d"] - 1))][spec["data"] % 2]
        return text(CG.get_code_spline(spec["d"], k=spec["k"], vector_valued=spec["data"] >= 2, vectorized=spec["vec"], allocate=True,
                                       extrap_mode="linear", orders=o, grid_types=["uniform"] * spec["d"]))
    if op.endswith("2"):
        return same_size(spec)
    checks, _, exact = c14.perform(spec)
    return checks, exact


def same_size(spec):
    """calls of one kind: the sizes (and what is shared) belong to the kind, the numbers to the call"""
    op, d, s = spec["op"], spec["d"], spec["data"]
    L = importlib.import_module("interpolation.splines")
    r = np.random.RandomState(900 + s)
    n = [4, 3, 5][:d]
    a, b = [-1.0, 0.5, 2.0][:d], [1.0, 3.5, 4.0][:d]
    if op == "filter2":
        FC = importlib.import_module("interpolation.splines.filter_cubic")
        m, h = spec["m"], spec["how"]
        V = r.standard_normal(n + ([m] if m else []))
        g = tuple(zip(a, b, n))
        if h == "old":
            C = (FC.filter_mcoeffs if m else FC.filter_coeffs)(a, b, n, V)
        elif h == "data":
            C = np.stack([FC.filter_data(np.ones(d), V[..., i]) for i in range(m)], axis=-1) if m else FC.filter_data(np.ones(d), V)
        elif h == "out":
            C = np.full([k + 2 for k in n] + ([m] if m else []), np.nan)
            L.filter_cubic(g, V, C)
        else:
            C = L.filter_cubic(g, V) if h == "alloc" else L.prefilter(g, V, k=3)
        return [("coefficients", C, None, 0.0)], True
    if op == "obj2":
        o = c14.pooled(("obj2", spec["cls"], d, s % 2), lambda: made(L, spec, a, b, n, s % 2))
        lo, hi = np.array(a), np.array(b)
        P = lo + (hi - lo) * r.uniform(-0.2, 1.2, (5, d))
        how = spec["how"]
        got = o(P) if how == "call" else o(P[0]) if how == "one" else o.interpolate(P, **({"diff": True} if spec["cls"].startswith("C") and how == "diff" else {}))
        got = got if isinstance(got, (tuple, list)) else (got,)
        return [("values", np.array(q), None, 0.0) for q in got] + [("grid", np.array(o.grid), None, 0.0)], True
    if op == "set2":  # an object of the thread's own, the same numbers of nodes
        o = made(L, spec, a, b, n, s)
        P = np.array(a) + 0.3
        return [("values", np.array(o(P[None, :])), None, 0.0)], True
    if op == "poly2":
        CP = importlib.import_module("interpolation.complete_poly")
        if spec["how"] == "fit":
            p = CP.CompletePolynomial(d, spec["deg"])
            S = r.uniform(-1, 1, (30, d))
            p.fit_values(S, np.sin(S).sum(axis=1) * (1 + s))
            p.fit_values(S, np.cos(S).sum(axis=1) * (1 + s), 0.25)
            return [("coefficients", p.coefs.copy(), None, 1e-9)], False
        p = c14.pooled(("poly2", d, spec["deg"]), lambda: fitted(CP, d, spec["deg"]))
        Q = r.uniform(-1, 1, (4, d))
        return [("values", p(Q), None, 1e-9), ("derivative", p.der(Q, s % d), None, 1e-9)], False
    SM = importlib.import_module("interpolation.smolyak")
    g = c14.pooled(("grid2", d, str(spec["mu"])), lambda: SM.SmolyakGrid(d, spec["mu"] if isinstance(spec["mu"], int) else np.array(spec["mu"]), lb=np.array(a), ub=np.array(b)))
    P = np.array(a) + (np.array(b) - np.array(a)) * r.uniform(0, 1, (3, d))
    if spec["how"] == "maps":
        c = g.dom2cube(P)
        return [("cube", c, None, 1e-12), ("domain", g.cube2dom(c), None, 1e-12)], False
    if spec["how"] == "shared":  # one interpolant, points of the call
        si = c14.pooled(("si2", d, str(spec["mu"])), lambda: SM.SmolyakInterp(g, np.sin(g.grid).sum(axis=1)))
        out = si.interpolate(P, deriv=True, deriv_th=True, deriv_X=True)
    else:
        si = SM.SmolyakInterp(g, np.cos(g.grid * (1 + s)).sum(axis=1))
        if spec["how"] == "update":
            si.update_theta(np.sin(g.grid * (1 + s)).sum(axis=1))
        out = si.interpolate(P, deriv=True)
    return [("result", np.array(q), None, 1e-9) for q in out], False


def made(L, spec, a, b, n, s):
    o = getattr(L, spec["cls"])(a, b, n)
    o.set_values(np.random.RandomState(70 + s).standard_normal(n + ([2] if spec["cls"].endswith("s") else [])))
    return o


def fitted(CP, d, deg):
    p = CP.CompletePolynomial(d, deg)
    S = np.random.RandomState(5).uniform(-1, 1, (40, d))
    p.fit_values(S, np.sin(S).sum(axis=1))
    return p


def result(spec):
    checks, exact = perform(spec)
    return [np.array(c[1], dtype=float) for c in checks], [c[3] for c in checks], exact


def same(x, y, tol, exact):
    if x.shape != y.shape:
        return False
    if exact:
        return np.array_equal(x, y, equal_nan=True)
    t = np.broadcast_to(np.abs(np.asarray(tol, dtype=float)), x.shape) if np.ndim(tol) == 0 or np.shape(tol) == x.shape else 1e-9
    return bool(np.all((np.abs(x - y) <= t + 1e-9) | (x == y) | (np.isnan(x) & np.isnan(y))))


def catalogue(kind, rnd):
    sg = []
    if kind == "filter":
        sg += [dict(op="filter2", d=d, m=m, how=h) for d in (1, 2, 3) for m in (None, 2) for h in ("old", "alloc", "out", "data", "prefilter")]
        for d in (1, 2):
            sg += [dict(op="filter", d=d, m=m, how=h) for m in (None, 2) for h in ("old", "alloc", "out")]
    elif kind == "objects":
        for c in ("LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines"):
            sg += [dict(op="obj2", d=d, cls=c, how=h) for d in (1, 2) for h in ("call", "interpolate") + (("one",) if c == "CubicSpline" else ())
                   + (("diff",) if c == "CubicSplines" else ())] + [dict(op="set2", d=d, cls=c) for d in (1, 2)]
        for c in ("LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines"):
            sg += [dict(op="obj", d=d, cls=c, how=h) for d in (1, 2) for h in ("call", "one", "interpolate")]
    elif kind == "compat":
        sg += [dict(op="compat", d=d, fn=f) for d in (1, 2) for f in ("eval_cubic_spline", "vec_eval_cubic_spline", "eval_cubic_splines", "vec_eval_cubic_splines",
                                                                      "vec_eval_cubic_splines_G", "multilinear_interpolation", "vec_multilinear_interpolation")]
    elif kind == "poly":
        sg += [dict(op="poly2", d=d, deg=g, how=h) for d in (1, 2, 3) for g in (1, 2) for h in ("fit", "eval", "eval")]
        sg += [dict(op="poly", n=n, d=d, vec=v) for n in (1, 2, 3) for d in (2, 3, 5) for v in (0, 1)]
        sg += [dict(op="polyder", n=n, d=d, vec=v) for n in (1, 2) for d in (2, 4) for v in (0, 1)]
        sg += [dict(op="fit", n=n, d=d) for n in (1, 2) for d in (1, 2, 3)]
    elif kind == "smolyak":
        sg += [dict(op="smol2", d=d, mu=m, how=h) for d in (2, 3) for m in (1, 2, [1, 2, 1][:d]) for h in ("maps", "shared", "new", "update")]
        for d in (2, 3):
            for mu in (1, 2, [1, 2, 1][:d], [2, 1, 3][:d]):
                sg += [dict(op="smol", d=d, mu=mu, what=w) for w in ("grid", "interp", "interp")]
        sg += [dict(op="blocks", kind=k) for k in (1.0, 2.0)]
    elif kind == "grids":
        sg += [dict(op="grid", fn=f, types=t, order=o) for f in ("nodes", "mlinspace", "cartesian") for t in ("u", "un", "nuu") for o in "CF"]
        sg += [dict(op="basis", p=p) for p in range(5)]
    elif kind == "text":
        sg += [dict(op="template", i=i) for i in range(len(TEMPLATES))]
        sg += [dict(op="code", d=d, k=k, vec=v) for d in (1, 2) for k in (1, 3) for v in (False, True)]
    rnd.shuffle(sg)
    return sg


def thread_cases(sigs):
    @st.composite
    def s(draw):
        n = draw(st.sampled_from([2, 2, 2, 3]))
        first = draw(st.sampled_from(sigs))
        lists = []
        if draw(st.booleans()):  # all threads make the same kind of call with their own data
            lists = [[dict(first, data=(i * draw(st.sampled_from([1, 2, 2]))) % 4)] * draw(st.sampled_from([1, 1, 2])) for i in range(n)]
        for i in range(n if not lists else 0):
            jobs = []
            for j in range(draw(st.integers(1, 2))):
                sig = draw(st.one_of(st.just(first), st.just(first), st.sampled_from(sigs)))
                jobs.append(dict(sig, data=draw(st.integers(0, 3))))
            lists.append(jobs)
        run = st.one_of(st.integers(1, 3), st.integers(1, 12), st.integers(1, 60))
        return {"lists": lists, "sched": draw(st.lists(run, min_size=1, max_size=8)), "own": draw(st.sampled_from([True, False, False]))}

    return s


def check_threads(case, ctx):
    alone = []
    c14._OWN.who = 0
    c14._POOL.clear()  # so that a replayed case starts from the same state
    try:
        for jobs in case["lists"]:
            alone.append([ctx.call("%s" % (spec,), result, spec) for spec in jobs])
    finally:
        del c14._OWN.who
    outs, turns = run_threads(case["lists"], case["sched"], case["own"], result)
    for jobs, al, ou in zip(case["lists"], alone, outs):
        for i, spec in enumerate(jobs):
            if i >= len(ou):
                raise Violation("a thread ended before %s" % (spec,))
            kind, got = ou[i]
            if kind == "raised":
                raise Violation("%s raised %s in a thread, alone it returns a result" % (spec, got))
            for x, y, t in zip(got[0], al[i][0], al[i][1]):
                if not same(x, y, t, al[i][2]):
                    raise Violation("%s returns something else while another thread calls %s" % (spec, [q for q in case["lists"] if q is not jobs]))
    ctx.calls += sum(map(len, outs))
    ctx.nontrivial(turns.overlap > 0)
    ctx.label("%d threads" % len(outs), "objects shared" if not case["own"] else "objects of their own")
    if turns.free:
        ctx.label("schedule given up")
    if turns.overlap > 20:
        ctx.label("more than 20 changes inside the package")


# ---------------------------------------------------------------- copies

CLS = ["LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines", "CompletePolynomial", "SmolyakInterp", "SmolyakGrid"]
HOW = ["copy", "deepcopy", "pickle2", "pickle", "pickle twice"]


@st.composite
def copy_cases(draw):
    cls = draw(st.sampled_from(CLS))
    d = draw(st.sampled_from([1, 2, 2, 3]))
    c = {"cls": cls, "s": draw(st.integers(0, 9999)), "how": draw(st.sampled_from(HOW)), "set": draw(st.sampled_from([True, True, True, False])),
         "grid": draw(st.booleans()), "then": draw(st.sampled_from(["original", "copy", "both", "nothing"])), "damp": draw(st.sampled_from([0.0, 0.5]))}
    if cls.endswith(("Spline", "Splines")):
        c["axes"] = draw(gen.axes("u" * d, large=False))
    elif cls == "CompletePolynomial":
        c["n"], c["d"], c["m"] = d, draw(st.integers(1, 3)), draw(st.sampled_from([0, 0, 2]))
    else:
        c["n"] = max(d, 2)
        c["mu"] = draw(st.sampled_from([1, 2, [1, 2, 1][: c["n"]], [2, 1, 3][: c["n"]]]))
    return c


def duplicate(x, how):
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    y = pickle.loads(pickle.dumps(x, protocol=2 if how == "pickle2" else pickle.HIGHEST_PROTOCOL))
    return pickle.loads(pickle.dumps(y)) if how == "pickle twice" else y


def check_copy(case, ctx):
    cls, r = case["cls"], np.random.RandomState(case["s"])
    L = importlib.import_module("interpolation.splines")
    CP = importlib.import_module("interpolation.complete_poly")
    SM = importlib.import_module("interpolation.smolyak")
    if cls.endswith(("Spline", "Splines")):
        axs = case["axes"]
        shape = gen.shape_of(axs) + ((2,) if cls.endswith("s") else ())
        k = 3 if cls.startswith("C") else 1
        P = gen.bulk(axs, [case["s"], 6, 1, 0])
        obj = ctx.call(cls, getattr(L, cls), [a["a"] for a in axs], [a["b"] for a in axs], [a["n"] for a in axs])
        data = [r.uniform(-3, 3, shape) for _ in range(3)]

        def put(o, V):
            ctx.call("%s.set_values" % cls, o.set_values, V.copy())

        def get(o):
            return [np.asarray(ctx.call("%s call" % cls, o, P)).copy()] + ([np.array(o.grid)] if case["grid"] else [])

        def expect(V, before):
            R = ref.interpolant(axs, V, P, k=k)
            return [(R.alts, R.tol)]
    elif cls == "CompletePolynomial":
        n, d, m = case["n"], case["d"], case["m"]
        obj = ctx.call(cls, CP.CompletePolynomial, n, d)
        mons = sorted(ref2.monomials(n, d))
        S, P = r.uniform(-1, 1, (80, n)), r.uniform(-1, 1, (5, n))
        bas = np.array([ref2.mono(e, S.T) * np.ones(80) for e in mons], dtype=float).T
        bas2 = np.array([ref2.mono(e, P.T) * np.ones(5) for e in mons], dtype=float).T
        data = [r.uniform(-2, 2, (len(mons),) + ((m,) if m else ())) for _ in range(3)]

        def put(o, V):
            first = not hasattr(o, "coefs")
            ctx.call("fit_values", o.fit_values, S, bas @ V, **({} if first or not case["damp"] else {"damp": case["damp"]}))

        def get(o):
            return [np.asarray(ctx.call("CompletePolynomial call", o, P)).copy(), np.asarray(ctx.call("der", o.der, P, 0)).copy()]

        def expect(V, before):
            w = V if before is None or not case["damp"] else (1 - case["damp"]) * V + case["damp"] * before
            return [([bas2 @ w], 1e-8)]
    else:
        n, mu = case["n"], case["mu"]
        lb, ub = np.round(r.uniform(-3, 0, n), 3), np.round(r.uniform(0.5, 4, n), 3)
        g = ctx.call("SmolyakGrid", SM.SmolyakGrid, n, mu if isinstance(mu, int) else np.array(mu), lb=lb.copy(), ub=ub.copy())
        pts, polys = ref2.sparse(n, mu)
        P = r.uniform(0, 0.4, (4, n))
        to = lambda X: (2 * X - lb - ub) / (ub - lb)  # noqa: E731
        BP, BG = ref2.basis(polys, to(P)).astype(float), ref2.basis(polys, to(np.array(g.grid))).astype(float)
        data = [r.uniform(-2, 2, len(polys)) for _ in range(3)]
        obj = g if cls == "SmolyakGrid" else ctx.call("SmolyakInterp", SM.SmolyakInterp, g, BG @ data[0])

        def put(o, V):
            if cls == "SmolyakInterp":
                ctx.call("update_theta", o.update_theta, BG @ V)

        def get(o):
            if cls == "SmolyakGrid":
                si = ctx.call("SmolyakInterp", SM.SmolyakInterp, o, BG @ data[0])
                return [np.asarray(si.interpolate(P)), np.array(o.grid), np.array(o.cube_grid), np.array(o.B), np.array(o.dom2cube(P)), np.array(o.cube2dom(P / 4))]
            v, gr = ctx.call("interpolate", o.interpolate, P, deriv=True)
            return [np.asarray(v).copy(), np.asarray(gr).copy()]

        def expect(V, before):
            return [([BP @ V], 1e-7)]

    settable = cls != "SmolyakGrid"
    have = cls.startswith("Smolyak")
    if case["set"] and settable or have:
        put(obj, data[0])
        have = True
    if case["grid"] and cls.endswith(("Spline", "Splines")):
        ctx.call("grid", lambda: obj.grid)
    dup = ctx.call("%s of %s" % (case["how"], cls), duplicate, obj, case["how"])
    require(type(dup) is type(obj), "the %s of a %s is a %s" % (case["how"], cls, type(dup).__name__))
    what = "%s of a %s" % (case["how"], cls)
    if have:
        a, b = get(obj), get(dup)
        for x, y in zip(a, b):
            require(same(x, y, 1e-9, not cls.startswith("Sm")), "the %s returns something else than the original" % what)
    ctx.label(cls, case["how"])
    if case["then"] == "nothing" or not settable or (case["how"] == "copy" and case["then"] != "copy"):
        ctx.nontrivial(have)
        return
    # new data for one of them (or both): the other one keeps its own
    parts = {"original": [(obj, data[1])], "copy": [(dup, data[2])], "both": [(obj, data[1]), (dup, data[2])]}[case["then"]]
    for o, V in parts:
        put(o, V)
    now = {id(obj): data[0] if have else None, id(dup): data[0] if have else None}
    for o, V in parts:
        now[id(o)] = V
    for o, nm in ((obj, "original"), (dup, "copy")):
        V = now[id(o)]
        if V is None or (o is obj and case["how"] == "copy"):
            continue
        fresh = any(o is q for q, _ in parts)
        got = get(o)
        for y, (alts, tol) in zip(got, expect(V, data[0] if have and fresh else None)):
            ok = np.zeros(y.shape, dtype=bool)
            require(y.shape == np.shape(alts[0]), "%s, %s: shape %s, expected %s" % (what, nm, y.shape, np.shape(alts[0])))
            for e in alts:
                ok |= np.abs(y - e) <= tol
            require(bool(ok.all()), "%s: after new data for the %s the %s returns wrong values" % (what, case["then"], nm))
    ctx.nontrivial(True)


def units(tier, seed):
    us = []
    for kind, cost in (("filter", 30), ("objects", 40), ("compat", 50), ("poly", 20), ("smolyak", 20), ("grids", 20), ("text", 10)):
        sigs = catalogue(kind, random.Random(seed))
        us.append(Unit("threads-" + kind, thread_cases(sigs), check_threads, quick=200, thorough=2000, cost=cost))
    us.append(Unit("copies", copy_cases, check_copy, quick=500, thorough=5000, cost=30))
    return us
