from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, sp
from ..core import Unit, require

RULE = ("cases: lists of axes (valid, or with one invalid axis at a generated place), orders, containers and number types; "
        "non-trivial: at least two axes of different sizes, or an invalid axis")
ASSUMPTIONS = ["nodes of evenly spaced axes may differ from the exact ones by rounding (1e-12 of the magnitude of the axis)"]

FL = st.one_of(st.sampled_from(gen.A0), st.floats(-1e6, 1e6, allow_nan=False), st.floats(-1e-6, 1e-6, allow_nan=False))


# ---------------------------------------------------------------- enumeration


@st.composite
def prod(draw):
    d = draw(st.integers(1, 5))
    mx = {1: 30, 2: 9, 3: 6, 4: 5, 5: 4}[d]
    how = draw(st.sampled_from(["array", "list", "int", "tuple", "strided", "reversed", "mixed", "mixed"]))
    if draw(st.sampled_from(range(12))) == 5:  # long axes and large products, filled from a seed
        total = draw(st.sampled_from([4200, 4200, 9000, 33000, 70000]))
        sizes = draw(st.lists(st.sampled_from([1, 2, 3, 5, 17, 65]), min_size=d, max_size=d))
        j = draw(st.integers(0, d - 1))
        while np.prod(sizes) > 2000:
            sizes[int(np.argmax(sizes))] = 2
        sizes[j] = int(total // (np.prod(sizes) // sizes[j])) + 1
        return {"sizes": sizes, "s": draw(st.integers(0, 9999)), "how": "array" if how == "mixed" else how, "order": draw(st.sampled_from(["default", "C", "F"]))}
    nodes = []
    for _ in range(d):
        n = draw(st.integers(1, mx))
        if how == "int" or (how == "mixed" and draw(st.booleans())):
            nodes.append(draw(st.lists(st.integers(-99, 99), min_size=n, max_size=n)))
        else:
            nodes.append(draw(st.lists(FL, min_size=n, max_size=n)))
    return {"nodes": nodes, "how": how, "order": draw(st.sampled_from(["default", "C", "F"]))}


def check_cartesian(case, ctx):
    from interpolation.cartesian import cartesian

    how, order = case["how"], case["order"]
    if "sizes" in case:
        r = np.random.RandomState(case["s"])
        nodes = [(r.permutation(n) - n // 2).tolist() if how == "int" else r.standard_normal(n).tolist() for n in case["sizes"]]
        ctx.label("large product")
    else:
        nodes = case["nodes"]
    if how == "int":
        args = [np.array(n, dtype=np.int64) for n in nodes]
    elif how == "mixed":  # the number type of each axis is its own
        args = [np.array(n) if i % 3 else list(n) for i, n in enumerate(nodes, len(nodes[0]))]
    elif how == "list":
        args = [list(n) for n in nodes]
    elif how == "tuple":
        args = tuple(np.array(n) for n in nodes)
    elif how == "strided":
        args = []
        for n in nodes:
            b = np.full(2 * len(n), -777.5)
            b[::2] = n
            args.append(b[::2])
    elif how == "reversed":
        args = [np.array(n[::-1])[::-1] for n in nodes]
    else:
        args = [np.array(n) for n in nodes]
    kw = {} if order == "default" else {"order": order}
    keep = [np.array(a) for a in args]
    got = ctx.call("cartesian", cartesian, args, **kw)
    exp = ref.enum_nodes(nodes, "F" if order == "F" else "C")
    judge("cartesian(order=%s)" % order, got, exp, 0.0)
    require(all(np.array_equal(np.asarray(a), b) for a, b in zip(args, keep)), "cartesian modified its argument")
    shape = [len(n) for n in nodes]
    ctx.label("order " + order, "%d axes" % len(nodes), "nodes as " + how)
    ctx.nontrivial(len(nodes) > 1 and len(set(shape)) > 1)


def judge(what, got, exp, tol):
    require(isinstance(got, np.ndarray), lambda: "%s returned %s" % (what, type(got)))
    require(got.shape == exp.shape, lambda: "%s returned shape %s, expected %s" % (what, got.shape, exp.shape))
    bad = ~(np.abs(got - exp) <= tol)
    require(not bad.any(), lambda: "%s: row %d is %s, expected %s" % (
        what, np.argwhere(bad)[0][0], got[np.argwhere(bad)[0][0]].tolist(), exp[np.argwhere(bad)[0][0]].tolist()))


@st.composite
def mlin(draw):
    d = draw(st.integers(1, 5))
    axs = draw(gen.axes("u" * d))
    return {"axes": axs, "order": draw(st.sampled_from(["default", "C", "F"])), "how": draw(st.sampled_from(["list", "array", "tuple"])),
            "counts": draw(st.sampled_from(["int", "int", "int", "float", "i2"]))}


def axis_tol(axs):
    return 1e-12 * np.array([max(abs(ref.ax_a(a)), abs(ref.ax_b(a))) for a in axs])[None, :]


def check_mlinspace(case, ctx):
    from interpolation.cartesian import mlinspace

    axs, order = case["axes"], case["order"]
    conv = {"list": list, "array": np.array, "tuple": tuple}[case["how"]]
    a, b, n = conv([x["a"] for x in axs]), conv([x["b"] for x in axs]), conv([x["n"] for x in axs])
    if case["counts"] != "int":  # the same whole numbers in another type
        n = conv(list(np.array(n).astype("f8" if case["counts"] == "float" else "i2")))
    kw = {} if order == "default" else {"order": order}
    got = ctx.call("mlinspace", mlinspace, a, b, n, **kw)
    exp = ref.enum_nodes([ref.ax_nodes(x) for x in axs], "F" if order == "F" else "C")
    judge("mlinspace(order=%s)" % order, got, exp, axis_tol(axs))
    ctx.label("order " + order, "%d axes" % len(axs), "arguments as " + case["how"])
    ctx.nontrivial(len(axs) > 1 and len({x["n"] for x in axs}) > 1)


@st.composite
def grids(draw):
    d = draw(st.integers(1, 5))
    t = draw(st.text("un", min_size=d, max_size=d))
    return {"axes": draw(gen.axes(t)), "via": draw(st.sampled_from(["CGrid", "UCGrid", "tuple"]))}


def check_nodes(case, ctx):
    L = sp.lib()
    axs = case["axes"]
    g = ref.grid_obj(axs)
    via = case["via"]
    if via == "UCGrid" and any(a["k"] == "n" for a in axs):
        via = "CGrid"
    if via != "tuple":
        g2 = ctx.call(via, getattr(L, via), *g)
        same_grid(via, g2, g)
        g = g2
    got = ctx.call("nodes", L.nodes, g)
    exp = ref.enum_nodes([ref.ax_nodes(x) for x in axs], "C")
    judge("nodes", got, exp, axis_tol(axs) * np.array([x["k"] == "u" for x in axs])[None, :])
    # values given in this order and reshaped to the grid belong to these nodes
    for i in np.unique(np.linspace(0, len(exp) - 1, 7).astype(int)):
        ix = np.unravel_index(i, gen.shape_of(axs))
        row = [ref.ax_nodes(a)[q] for a, q in zip(axs, ix)]
        require(np.all(np.abs(got[i] - row) <= axis_tol(axs)[0]), "row %d of nodes is not node %s" % (i, ix))
    ctx.label("grid made by " + via, "%d axes" % len(axs), "axes " + "".join(sorted({a["k"] for a in axs})))
    ctx.nontrivial(len(axs) > 1 and len(set(gen.shape_of(axs))) > 1)


def same_grid(what, got, given):
    require(isinstance(got, tuple) and len(got) == len(given), lambda: "%s returned %r" % (what, got))
    for i, (a, b) in enumerate(zip(got, given)):
        if isinstance(b, np.ndarray):
            ok = isinstance(a, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
        else:
            ok = isinstance(a, tuple) and tuple(a) == b and [type(q) for q in a] == [type(q) for q in b]
        require(ok, lambda: "%s changed axis %d: %r became %r" % (what, i, b, a))


# ---------------------------------------------------------------- validation

BAD_U = ["reversed", "equal", "one", "zero", "negative", "nan_lo", "nan_hi", "int_lo", "int_hi", "float_n", "short", "long", "list", "string", "none",
         "number", "array_of_3", "tuple_of_none"]
BAD_C = ["reversed", "equal", "one", "zero", "negative", "nan_lo", "nan_hi", "int_lo", "int_hi", "float_n", "short", "long", "list", "string", "none",
         "number", "array2d", "array0d", "array1", "array_empty", "array3d"]


def make_bad(kind, ax):
    a, b, n = ref.ax_a(ax), ref.ax_b(ax), ref.ax_n(ax)
    nodes = ref.ax_nodes(ax)
    return {
        "reversed": (b, a, n), "equal": (a, a, n), "one": (a, b, 1), "zero": (a, b, 0), "negative": (a, b, -n),
        "nan_lo": (float("nan"), b, n), "nan_hi": (a, float("nan"), n), "int_lo": (int(np.floor(a)), b, n), "int_hi": (a, int(np.ceil(b)), n),
        "float_n": (a, b, float(n)), "short": (a, b), "long": (a, b, n, n), "list": [a, b, n], "string": "grid", "none": None, "number": a,
        "array_of_3": np.array([a, b, float(n)]), "tuple_of_none": (None, None, None),
        "array2d": np.stack([nodes, nodes]), "array0d": np.array(a), "array1": np.array([a]), "array_empty": np.array([]),
        "array3d": np.zeros((2, 2, 2)),
    }[kind]


@st.composite
def bad(draw):
    which = draw(st.sampled_from(["UCGrid", "CGrid"]))
    d = draw(st.integers(1, 4))
    t = "u" * d if which == "UCGrid" else draw(st.text("un", min_size=d, max_size=d))
    return {"which": which, "axes": draw(gen.axes(t)), "pos": draw(st.integers(0, d - 1)),
            "bad": draw(st.sampled_from([None] + (BAD_U if which == "UCGrid" else BAD_C)))}


def check_bad(case, ctx):
    L = sp.lib()
    f = getattr(L, case["which"])
    args = list(ref.grid_obj(case["axes"]))
    if case["bad"] is None:
        got = ctx.call(case["which"], f, *args)
        same_grid(case["which"], got, tuple(args))
        ctx.label("valid grid accepted")
        return
    args[case["pos"]] = make_bad(case["bad"], case["axes"][case["pos"]])
    ctx.rejects("%s with axis %d = %r" % (case["which"], case["pos"], args[case["pos"]]), f, *args)
    ctx.label("rejected: " + case["bad"])
    ctx.nontrivial()


def units(tier, seed):
    return [
        Unit("cartesian", prod, check_cartesian, quick=900, cost=3),
        Unit("mlinspace", mlin, check_mlinspace, quick=600, cost=2),
        Unit("nodes", grids, check_nodes, quick=700, cost=3),
        Unit("validation", bad, check_bad, quick=1200, cost=2),
    ]
