"""Runs jitted functions of the repository without compiling them.

The functions users call are numba dispatchers whose Python source is complete: a body, calls to
other dispatchers, and calls to stubs that numba replaces by an implementation chosen (or generated)
from the argument types.  `interpreted(f)` makes the same choices with numba's own tables and runs
the chosen source with the Python interpreter.  That removes the 0.3-200 s of compilation a
configuration costs, so that every configuration can be driven.  It never decides alone: whatever
differs here is repeated with the compiled function (see `units`)."""
import inspect
import types as pytypes

import numpy as np

from .core import Unit, Violation

_cache = {}
_impl = {}


class Mismatch(Exception):
    """no implementation found for the arguments"""


def _tctx():
    from numba.core.registry import cpu_target

    c = cpu_target.typing_context
    c.refresh()
    return c


class Stub:
    """a function that has numba overloads"""

    def __init__(self, orig, fnty):
        self.orig, self.fnty = orig, fnty

    def __call__(self, *args, **kw):
        from numba.core import errors, types

        last = None
        for lit in (True, False):
            tys = [typ(a, lit) for a in args]
            kws = {k: typ(v, lit) for k, v in kw.items()}
            key = (id(self.orig), tuple(tys), tuple(sorted(kws.items(), key=lambda q: q[0])))
            if key in _impl:
                return _impl[key](*args, **kw)
            for t in self.fnty.templates:
                f = getattr(t, "_overload_func", None)
                if f is None:
                    continue
                try:
                    inspect.signature(f).bind(*tys, **kws)
                    py = f(*tys, **kws)
                except (errors.NumbaError, errors.ForceLiteralArg, TypeError, AttributeError, AssertionError) as e:
                    last = e
                    continue
                if py is None:
                    continue
                if isinstance(py, tuple):
                    py = py[1]
                _impl[key] = r = interpreted(py)
                return r(*args, **kw)
            assert types
        raise Mismatch("no implementation of %s: %r" % (self.orig.__name__, last))


def typ(v, literal):
    import numba
    from numba.core import types

    if isinstance(v, Stub):
        return v.fnty
    if isinstance(v, Run):
        return numba.typeof(v.disp)
    if literal and isinstance(v, (int, str)) and not isinstance(v, bool):
        return types.literal(v)
    return numba.typeof(v)


class Run:
    """an interpreted dispatcher (kept distinguishable from plain functions for typing)"""

    def __init__(self, disp, f):
        self.disp, self.f = disp, f

    def __call__(self, *args, **kw):
        return self.f(*args, **kw)


def _ours(f):
    return isinstance(f, pytypes.FunctionType) and (f.__module__ or "").startswith("interpolation") or (
        isinstance(f, pytypes.FunctionType) and f.__module__ is None)


def _value(v):
    from numba.core import types
    from numba.core.dispatcher import Dispatcher

    if isinstance(v, Dispatcher):
        return interpreted(v)
    if isinstance(v, pytypes.FunctionType) and (v.__module__ or "").startswith("interpolation"):
        try:
            t = _tctx().resolve_value_type(v)
        except Exception:  # noqa: BLE001
            t = None
        if isinstance(t, types.Function):
            return Stub(v, t)
        return interpreted(v)
    return v


def _names(code):
    r = set(code.co_names)
    for c in code.co_consts:
        if isinstance(c, pytypes.CodeType):
            r |= _names(c)
    return r


def _unified(f):
    """numba's min and max return the common type of their arguments"""

    def g(*args):
        r = f(*args)
        if isinstance(r, (int, np.integer)) and any(isinstance(a, (float, np.floating)) for a in args):
            return float(r)
        return r

    return g


def interpreted(f):
    """f: dispatcher or Python function"""
    from numba.core.dispatcher import Dispatcher

    key = id(f)
    if key in _cache:
        return _cache[key][1]
    py = f.py_func if isinstance(f, Dispatcher) else f
    if not isinstance(py, pytypes.FunctionType):
        return f
    g = dict(py.__globals__)
    names = _names(py.__code__)
    cells = tuple(pytypes.CellType() for _ in (py.__closure__ or ()))
    n = pytypes.FunctionType(py.__code__, g, py.__name__, py.__defaults__, cells if py.__closure__ is not None else None)
    n.__kwdefaults__ = py.__kwdefaults__
    r = Run(f, n) if isinstance(f, Dispatcher) else n
    _cache[key] = (f, r)  # before descending: functions may refer to each other
    for k, b in (("min", min), ("max", max)):
        if k in names and g.get(k, b) is b:
            g[k] = _unified(b)
            names.discard(k)
    for k in names:
        if k in g:
            g[k] = _value(g[k])
    for new, old in zip(cells, py.__closure__ or ()):
        try:
            new.cell_contents = _value(old.cell_contents)
        except ValueError:
            pass
    return r


def callable_of(fn):
    from numba.core.dispatcher import Dispatcher

    if isinstance(fn, Dispatcher) or _ours(fn):
        return interpreted(fn)
    return fn


# -------------------------------------------------------------------------- units


class Proxy:
    """ctx whose calls run the source; labels go nowhere until the case is settled"""

    def __init__(self, ctx):
        self._ctx = ctx
        self._labels = []
        self._nontriv = False

    def call(self, what, fn, *args, **kw):
        f = callable_of(fn)
        with np.errstate(all="ignore"):
            return self._ctx.call(what, f, *args, **kw)

    def rejects(self, what, fn, *args, **kw):
        return self._ctx.rejects(what, fn, *args, **kw)

    def label(self, *names):
        self._labels += names

    def nontrivial(self, cond=True):
        self._nontriv = self._nontriv or bool(cond)

    def __getattr__(self, k):
        return getattr(self._ctx, k)


MAX_UNCONFIRMED = 3


def decided(check):
    """check run on the source; a failure only counts when the compiled code fails the same case"""
    state = {"unconfirmed": 0}

    def run(case, ctx):
        if state["unconfirmed"] < MAX_UNCONFIRMED:
            p = Proxy(ctx)
            try:
                check(case, p)
                ctx.label("run as source", *p._labels)
                ctx.nontrivial(p._nontriv)
                return
            except Exception as e:  # noqa: BLE001
                first = e
            check(case, ctx)  # compiled: raises if the property is violated
            state["unconfirmed"] += 1
            ctx.label("source differs, compiled right")
            run.last = first
        else:
            return

    run.last = None
    return run


def unit(name, strategy, check, quick=300, thorough=None, cost=1.0):
    return Unit("source-" + name, strategy, decided(check), quick=quick, thorough=thorough, cost=cost)
