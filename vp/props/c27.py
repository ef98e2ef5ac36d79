import os
import shutil
import tempfile

from hypothesis import strategies as st

from ..core import Unit, require

RULE = ("cases: a template generated from a syntax tree (text with line breaks, expressions with filters, for with unpacking, looper, break and continue, if/elif/else, inline and block Python, "
        "defaults, functions, comments, inheritance; directives on lines of their own or inline; delimiters), values for its variables; the tree is rendered independently; "
        "or a template with a syntax or run time error at a known place; non-trivial: at least one block directive or filter and a non-empty result, or an error")
ASSUMPTIONS = ["expressions are evaluated by Python itself in the reference too; they contain no '|' and no delimiter other than the filter sign",
               "whitespace-only lines next to directive lines are not generated (the code drops some of them; the documentation only says that a directive on a line by itself leaves no whitespace)",
               "line ends are \\n; directives are spelled without leading blanks"]

DELIMS = [None, None, None, None, ["{{", "}}"], ["<%", "%>"], ["[[", "]]"], ["$(", ")$"], ["@@", "%%"]]
FILTERS = {"neg": lambda v: -v if isinstance(v, int) else "~" + str(v), "twice": lambda v: v * 2, "up": lambda v: str(v).upper(), "brk": lambda v: "[%s]" % (v,)}

TEXTC = "abcXYZ_ ,.;:=*/0123456789\t\u00e4\u03a6{}[]<>%$()@\"'\\#"
IDENT = ["a", "b", "i", "j", "long_name", "x1", "for_", "ifx", "elsewhere"]


def clean(s):
    """text in which no delimiter can begin, end or join up"""
    for d in ("{{", "}}", "<%", "%>", "[[", "]]", "$(", ")$", "@@", "%%"):
        while d in s:
            s = s.replace(d, d[0])
    return s.strip("{}[]<>%$()@")


TEXT = st.text(TEXTC, max_size=12).map(clean)
INTS = st.integers(-9, 20)


class Gen:
    """draws a tree; env maps the names in scope to 'int' or 'str'"""

    def __init__(self, draw, funcs=True):
        self.draw, self.budget, self.funcs = draw, 22, funcs

    def pick(self, xs):
        return self.draw(st.sampled_from(xs))

    def ints(self, env):
        return sorted(n for n, t in env.items() if t == "int")

    def expr(self, env, depth=0):
        """(source, kind)"""
        names = sorted(n for n, t in env.items() if t in ("int", "str"))
        k = self.pick(["name", "name", "lit", "add", "str", "cond", "index", "fmt"] if depth < 2 else ["name", "lit"])
        if k == "name" and names:
            n = self.pick(names)
            return n, env[n]
        if k == "add":
            a, b = self.iexpr(env, depth + 1), self.iexpr(env, depth + 1)
            return "%s %s %s" % (a, self.pick("+-*"), b), "int"
        if k == "str":
            return repr(self.pick(["", "s", "a b", "it's", "}", "{", "q:", "x\ny", "\u03bb"])), "str"
        if k == "cond":
            return "%s if %s else %s" % (self.iexpr(env, depth + 1), self.test(env, depth + 1), self.iexpr(env, depth + 1)), "int"
        if k == "index":
            return "[%d, %d, %d][%s %% 3]" % (self.draw(INTS), self.draw(INTS), self.draw(INTS), self.iexpr(env, 2)), "int"
        if k == "fmt":
            return "'%%s-%%d' %% (%s, %s)" % (self.expr(env, 2)[0], self.iexpr(env, 2)), "str"
        return str(self.draw(st.integers(0, 30))), "int"

    def iexpr(self, env, depth):
        n = self.ints(env)
        if n and self.draw(st.booleans()):
            return self.pick(n)
        return str(self.draw(st.integers(0, 9)))

    def test(self, env, depth):
        return self.pick(["%s > %s", "%s == %s", "not %s %% 2 == %s", "%s in (1, %s, 7)", "%s < %s"]) % (self.iexpr(env, depth), self.iexpr(env, depth))

    def seq(self, env, width):
        k = self.pick(["range", "list", "range", "enum", "loop", "str"]) if width == 1 else self.pick(["enum", "list", "loop", "items"])
        if width == 1:
            if k == "str":
                return repr(self.pick(["", "pq", "xyz"])), ["str"]
            if k in ("range", "loop"):
                return "range(%s %% 5)" % self.iexpr(env, 1), ["int"]
            if k == "enum":
                return "sorted([%s, %s, 3])" % (self.iexpr(env, 1), self.iexpr(env, 1)), ["int"]
            return "[%s]" % ", ".join(str(v) for v in self.draw(st.lists(INTS, max_size=4))), ["int"]
        if width == 2:
            if k == "loop":
                return "looper([%s])" % ", ".join(str(v) for v in self.draw(st.lists(st.integers(0, 3), max_size=4))), ["loop", "int"]
            if k == "items":
                return "sorted({'k': 1, 'l': %s}.items())" % self.iexpr(env, 1), ["str", "int"]
            return "enumerate(%r)" % self.draw(st.lists(INTS, max_size=4)), ["int", "int"]
        return repr([(q, q * q, -q) for q in self.draw(st.lists(INTS, max_size=3))]), ["int", "int", "int"]

    def style(self):
        # [own line?, indentation, blanks behind]
        return [self.draw(st.booleans()), self.pick(["", "", "    ", "\t", " "]), self.pick(["", "", " ", "  \t"])]

    def body(self, env, depth, loop):
        out = []
        for _ in range(self.draw(st.integers(0, 4 if depth else 6))):
            self.budget -= 1
            if self.budget < 0:
                break
            kinds = ["text", "text", "expr", "expr", "line"]
            if depth < 4:
                kinds += ["for", "for", "if", "if"]
            kinds += ["py", "block", "default", "comment"]
            if loop:
                kinds += ["stop"]
            if self.funcs and depth == 0:
                kinds += ["def"]
            if any(t == "func" for t in env.values()):
                kinds += ["call"]
            if any(t == "loop" for t in env.values()):
                kinds += ["loop", "loop"]
            k = self.pick(kinds)
            if k == "text":
                out.append(["text", self.draw(TEXT)])
            elif k == "line":
                out.append(["text", self.draw(TEXT) + "\n" + self.draw(TEXT)])
            elif k == "expr":
                f = self.draw(st.lists(st.sampled_from(sorted(FILTERS)), max_size=2)) if self.draw(st.booleans()) else []
                out.append(["expr", self.expr(env)[0], f, self.pick(["", " "])])
            elif k == "loop":
                n = self.pick(sorted(n for n, t in env.items() if t == "loop"))
                out.append(["expr", n + self.pick([".index", ".number", ".item", ".first", ".last", ".length", ".odd", ".previous", ".__next__", ".even + 0",
                                                   ".first_group()", ".last_group()", ".first_group(lambda v: v % 2)", ".last_group(lambda v: v // 2)"]), [], ""])
            elif k == "for":
                w = self.pick([1, 1, 1, 2, 2, 3])
                src, types = self.seq(env, w)
                vs = self.draw(st.lists(st.sampled_from(IDENT), min_size=w, max_size=w, unique=True))
                e2 = {n: t for n, t in env.items() if n not in vs}
                out.append(["for", vs, src, self.body(dict(e2, **dict(zip(vs, types))), depth + 1, True), self.style(), self.style(), self.pick(["", "", ":"])])
                for v in self.assigned(out[-1]):  # may be unset when there is nothing to go through
                    env.pop(v, None)
            elif k == "if":
                n = self.draw(st.integers(1, 3))
                br = [[self.test(env, 0), self.body(dict(env), depth + 1, loop), self.style()] for _ in range(n)]
                if self.draw(st.booleans()):
                    br.append([None, self.body(dict(env), depth + 1, loop), self.style()])
                out.append(["if", br, self.style(), self.pick(["", "", ":"])])
                for q in self.assigned(out[-1]):
                    env.pop(q, None)
            elif k == "stop":
                out.append([self.pick(["break", "continue"]), self.style()])
            elif k == "py":
                n = self.pick(IDENT)
                e, t = self.expr(env)
                out.append(["py", n, e, self.pick(["", " "]), self.style()])
                env[n] = t
            elif k == "block":
                n, q = self.draw(st.lists(st.sampled_from(IDENT), min_size=2, max_size=2, unique=True))
                out.append(["block", n, q, self.iexpr(env, 1), self.draw(st.integers(0, 4)), self.style()])
                env[n], env[q] = "int", "int"
            elif k == "default":
                known = sorted(n for n, t in env.items() if t in ("int", "str"))
                n = self.pick(known if known and self.draw(st.booleans()) else IDENT + ["fresh"])
                e, t = self.expr(env)
                out.append(["default", n, e, self.pick(["=", " = "]), self.style()])
                if self.draw(st.booleans()):
                    out.append(["expr", n, [], ""])
                if env.get(n, t) != t or n not in env:
                    env.pop(n, None)  # set or not
            elif k == "comment":
                out.append(["comment", self.pick(["", " note", "if x", " endfor", "{", " a\n b"])])
            elif k == "def":
                f = self.pick(["fa", "fb"])
                args = self.draw(st.lists(st.sampled_from(["p", "q", "r"]), max_size=3, unique=True))
                nd = self.draw(st.integers(0, len(args)))
                dv = [self.pick(["1", "'d'", "(2, 3)[0]", "len('a,b')", "{'k': 5}['k']"]) for _ in range(nd)]
                star, kw = self.draw(st.booleans()), self.draw(st.booleans())
                saved, self.funcs = self.funcs, False
                b = self.body({a: "any" for a in args}, 1, False)
                self.funcs = saved
                show = [["expr", a, [], ""] for a in args] + ([["expr", "'*%s' % len(rest)", [], ""]] if star else []) + ([["expr", "sorted(kw.items())", [], ""]] if kw else [])
                out.append(["def", f, args, dv, star, kw, show + b, self.style(), self.style(), bool(not args and not star and not kw and self.draw(st.booleans()))])
                env[f] = "func"
                self.sig = getattr(self, "sig", {})
                self.sig[f] = (args, nd, star, kw)
            elif k == "call":
                f = self.pick(sorted(n for n, t in env.items() if t == "func"))
                args, nd, star, kw = self.sig[f]
                need = len(args) - nd
                npos = self.draw(st.integers(0, len(args)))
                parts = [self.iexpr(env, 1) for _ in range(npos)]
                if star and npos == len(args):
                    parts += [self.iexpr(env, 1) for _ in range(self.draw(st.integers(0, 2)))]
                for j, a in enumerate(args):
                    if j >= npos and (j < need or self.draw(st.booleans())):
                        parts.append("%s=%s" % (a, self.iexpr(env, 1)))
                if kw and self.draw(st.booleans()):
                    parts.append("zz=%s" % self.iexpr(env, 1))
                out.append(["expr", "%s(%s)" % (f, ", ".join(parts)), [], ""])
        return out

    def assigned(self, node):
        k = node[0]
        if k == "py":
            return {node[1]}
        if k == "block":
            return {node[1], node[2]}
        if k == "default":
            return {node[1]}
        if k == "for":
            return set(node[1]).union(*[self.assigned(n) for n in node[3]])
        if k == "if":
            return set().union(*[self.assigned(n) for b in node[1] for n in b[1]])
        return set()


@st.composite
def cases(draw):
    g = Gen(draw)
    env = {n: draw(st.sampled_from(["int", "str"])) for n in draw(st.lists(st.sampled_from(IDENT), max_size=4, unique=True))}
    vals = {n: draw(INTS) if t == "int" else draw(st.sampled_from(["", "v", "two words", "}", "\u03b4"])) for n, t in sorted(env.items())}
    tree = g.body(dict(env), 0, False)
    vals2 = {n: draw(INTS) if t == "int" else draw(st.sampled_from(["", "other"])) for n, t in sorted(env.items())}
    drop = draw(st.lists(st.sampled_from(IDENT), max_size=2))
    return {"tree": tree, "vals": vals, "vals2": {n: v for n, v in vals2.items() if n not in drop}, "how": draw(st.sampled_from(["kw", "dict", "namespace", "sub", "file"])), "delims": draw(st.sampled_from(DELIMS)),
            "twice": draw(st.booleans())}


# ---------------------------------------------------------------- rendering the source


def flatten(tree, delims):
    """the source, its pieces and where they start, the statement directives, and the tree with every text explicit"""
    o, c = delims or ("{{", "}}")
    toks = []  # [kind, payload]: "t" text, "d" directive (inner, statement?)

    def text(t):
        if t:
            if toks and toks[-1][0] == "t":
                toks[-1][1] += t
            else:
                toks.append(["t", t])
        return None

    def at_line_start():
        return not toks or (toks[-1][0] == "t" and toks[-1][1].endswith("\n"))

    out_nodes = []

    def add_text(t, into):
        if t:
            text(t)
            into.append(["text", t, len(toks) - 1, len(toks[-1][1]) - len(t)])

    def stmt(inner, style, into_before, into_after):
        own, ind, trail = style
        if own:
            if not at_line_start():
                add_text("\n", into_before)
            add_text(ind, into_before)
        toks.append(["d", inner, True])
        if own:
            add_text(trail + "\n", into_after)

    def walk(nodes, into):
        for n in nodes:
            k = n[0]
            if k == "text":
                add_text(n[1], into)
            elif k == "expr":
                toks.append(["d", n[3] + n[1] + "".join(n[3] + "|" + n[3] + f for f in n[2]) + n[3], False])
                into.append(n)
            elif k == "comment":
                toks.append(["d", "#" + n[1], False])
            elif k in ("break", "continue"):
                # text behind it on the own line is never reached: goes after the node
                aft = []
                stmt(k, n[1], into, aft)
                into.append([k])
                into.extend(aft)
            elif k == "py":
                aft = []
                stmt("py:%s%s = %s" % (n[3], n[1], n[2]), n[4], into, aft)
                into.append(["py", n[1], n[2]])
                into.extend(aft)
            elif k == "block":
                aft = []
                stmt("py:\n%s = 1\n%s = %s\nfor %s in range(%d):\n    %s = %s + %s\n" % (n[1], n[2], n[3], "_t", n[4], n[1], n[1], n[2]), n[5], into, aft)
                into.append(["block", n[1], n[2], n[3], n[4]])
                into.extend(aft)
            elif k == "default":
                aft = []
                stmt("default %s%s%s" % (n[1], n[3], n[2]), n[4], into, aft)
                into.append(["default", n[1], n[2]])
                into.extend(aft)
            elif k == "for":
                inner, aft = [], []
                stmt("for %s in %s%s" % (", ".join(n[1]), n[2], n[6]), n[4], into, inner)
                walk(n[3], inner)
                stmt("endfor", n[5], inner, aft)
                into.append(["for", n[1], n[2], inner])
                into.extend(aft)
            elif k == "if":
                node = ["if", []]
                prev = into
                for i, (t, b, sty) in enumerate(n[1]):
                    inner = []
                    stmt("else" if t is None else ("if " if i == 0 else "elif ") + t + n[3], sty, prev, inner)
                    walk(b, inner)
                    node[1].append([t, inner])
                    prev = inner
                aft = []
                stmt("endif", n[2], prev, aft)
                into.append(node)
                into.extend(aft)
            elif k == "def":
                _, f, args, dv, star, kw, b, s1, s2, bare = n
                sig = args[:len(args) - len(dv)] + ["%s=%s" % z for z in zip(args[len(args) - len(dv):], dv)] + (["*rest"] if star else []) + (["**kw"] if kw else [])
                inner, aft = [], []
                stmt("def %s%s" % (f, "" if bare else "(%s)" % ", ".join(sig)), s1, into, inner)
                walk(b, inner)
                stmt("enddef", s2, inner, aft)
                into.append(["def", f, args, dv, star, kw, inner])
                into.extend(aft)

    walk(tree, out_nodes)
    src, spans, starts = "", [], []
    for t in toks:
        starts.append(len(src))
        if t[0] == "t":
            src += t[1]
        else:
            a = len(src)
            src += o + t[1] + c
            if t[2]:
                spans.append((a, len(src)))
    return src, toks, starts, spans, out_nodes


def ambiguous(src, spans):
    """a line of blanks only next to a line holding nothing but a directive, or at the start or end next to one"""
    drop = dropped(src, spans)
    lines, pos = [], 0
    for ln in src.split("\n"):
        lines.append((pos, pos + len(ln), ln))
        pos += len(ln) + 1
    owned = [any(a < e and s < b for a, b in drop) or any(s == a for a, b in drop) for s, e, _ in lines]
    blank = [not ln.strip() and not o for (_, _, ln), o in zip(lines, owned)]
    for i, o in enumerate(owned):
        if o and ((i and blank[i - 1]) or (i + 1 < len(lines) and blank[i + 1] and (i + 2 < len(lines) or lines[i + 1][2]))):
            return True
    return False


def dropped(src, spans):
    """parts of the source that leave no trace: lines that hold nothing but one directive"""
    out = []
    for a, b in spans:
        ls = src.rfind("\n", 0, a) + 1
        le = src.find("\n", b)
        end = len(src) if le < 0 else le
        if not src[ls:a].strip(" \t") and not src[b:end].strip(" \t"):
            out.append((ls, len(src) if le < 0 else le + 1))
    return out


# ---------------------------------------------------------------- reference


class Stop(Exception):
    pass


class Go(Exception):
    pass


class Loop:
    def __init__(self, seq, i):
        self.index, self.number, self.item, self.length = i, i + 1, seq[i], len(seq)
        self.first, self.last = i == 0, i + 1 == len(seq)
        self.odd, self.even = i % 2 == 0, i % 2
        self.previous = seq[i - 1] if i else None
        setattr(self, "__next__", seq[i + 1] if i + 1 < len(seq) else None)

    def __str__(self):
        raise TypeError("what it prints is not specified")

    __repr__ = __str__

    def first_group(self, g=lambda v: v):
        return self.first or g(self.item) != g(self.previous)

    def last_group(self, g=lambda v: v):
        return self.last or g(self.item) != g(getattr(self, "__next__"))


def model_looper(seq):
    seq = list(seq)
    return [(Loop(seq, i), v) for i, v in enumerate(seq)]


def out_of(v, quote=False):
    if v is None:
        return ""
    v = str(v)
    if quote:
        v = v.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")
    return v


def render(nodes, env, keep, quote=False):
    out = []

    def ev(src, scope):
        return eval(src.strip(), {"looper": model_looper}, scope)

    def run(nodes, env):
        for n in nodes:
            k = n[0]
            if k == "text":
                out.append(keep(n))
            elif k == "expr":
                v = ev(n[1], env)
                for f in n[2]:
                    v = FILTERS[f](v)
                out.append(out_of(v))
            elif k == "py":
                env[n[1]] = ev(n[2], env)
            elif k == "block":
                env[n[1]] = 1
                env[n[2]] = ev(n[3], env)
                env[n[1]] = 1 + n[4] * env[n[2]]
                if n[4]:
                    env["_t"] = n[4] - 1
            elif k == "default":
                if n[1] not in env:
                    env[n[1]] = ev(n[2], env)
            elif k == "for":
                for item in ev(n[2], env):
                    if len(n[1]) == 1:
                        env[n[1][0]] = item
                    else:
                        env.update(zip(n[1], item))
                    try:
                        run(n[3], env)
                    except Go:
                        continue
                    except Stop:
                        break
            elif k == "if":
                for t, b in n[1]:
                    if t is None or ev(t, env):
                        run(b, env)
                        break
            elif k == "break":
                raise Stop
            elif k == "continue":
                raise Go
            elif k == "def":
                env[n[1]] = function(n, env)

    def function(n, defenv):
        _, f, args, dv, star, kw, body = n

        def call(*pos, **kws):
            sc = dict(defenv)
            for a, v in zip(args, pos):
                sc[a] = v
            if star:
                sc["rest"] = tuple(pos[len(args):])
            for a, d in zip(args[len(args) - len(dv):], dv):
                if a not in sc_set(args, pos, kws):
                    sc[a] = eval(d)
            extra = {}
            for a, v in kws.items():
                if a in args:
                    sc[a] = v
                else:
                    extra[a] = v
            if kw:
                sc["kw"] = extra
            nonlocal out
            saved, out = out, []
            try:
                run(body, sc)
                return "".join(out)
            finally:
                out = saved

        return call

    def sc_set(args, pos, kws):
        return set(args[:len(pos)]) | set(kws)

    run(nodes, env)
    return "".join(out)


def expected(src, toks, starts, spans, nodes, env):
    gone = dropped(src, spans)

    def keep(n):
        a = starts[n[2]] + n[3]
        return "".join(ch for i, ch in enumerate(n[1], a) if not any(s <= i < e for s, e in gone))

    return render(nodes, env, keep)


def check(case, ctx):
    import interpolation.tempita as T

    delims = case["delims"]
    src, toks, starts, spans, nodes = flatten(case["tree"], delims)
    o, c = delims or ("{{", "}}")
    n_o, n_c = sum(t[0] == "d" for t in toks), sum(t[0] == "d" for t in toks)
    if src.count(o) != n_o or src.count(c) != n_c or ambiguous(src, spans):
        ctx.label("not judged")
        return
    # delimiters that overlap with their surroundings are read differently
    pos = 0
    for t, a in zip(toks, starts):
        if t[0] == "d":
            if src.find(o, pos) != a or src.find(c, a + len(o)) != a + len(o) + len(t[1]):
                ctx.label("not judged")
                return
            pos = a + len(o) + len(t[1]) + len(c)
    base = dict(case["vals"])

    def model(v):
        return expected(src, toks, starts, spans, nodes, dict(v, **FILTERS))

    try:
        exp = model(base)
    except (TypeError, NameError, ValueError, AttributeError) as e:  # the generated program is wrong
        ctx.label("not judged: " + type(e).__name__)
        return
    try:
        exp2 = model(case["vals2"])
    except (TypeError, NameError, ValueError, AttributeError):
        exp2 = None
    vals = dict(base, **FILTERS)
    how = case["how"]
    dk = {} if delims is None else {"delimeters": tuple(delims)}

    def go():
        if how == "sub":
            return ctx.call("sub(%r)" % src, T.sub, src, **dict(dk, **vals))
        if how == "file" and delims is None:
            d = tempfile.mkdtemp(prefix="vp_t_")
            try:
                p = os.path.join(d, "t.txt")
                with open(p, "wb") as f:
                    f.write(src.encode("utf8"))
                t = ctx.call("from_filename(%r)" % src, T.Template.from_filename, p, **({"encoding": "utf8"} if len(src) % 2 else {}))
            finally:
                shutil.rmtree(d)
            return ctx.call("substitute %r" % src, t.substitute, **vals)
        # some of the names in the namespace of the template, the others given to substitute
        given = dict(vals)
        ns = {n: given.pop(n) for n in FILTERS} if how == "namespace" else {}
        t = ctx.call("Template(%r)" % src, T.Template, src, **(dict(dk, namespace=dict(ns)) if ns else dk))
        one = ctx.call("substitute %r" % src, t.substitute, *([dict(given)] if how == "dict" else []), **(given if how != "dict" else {}))
        if case["twice"]:
            if exp2 is not None:
                second = {n: v for n, v in dict(case["vals2"], **FILTERS).items() if n not in ns}
                two = ctx.call("substitute %r again" % src, t.substitute, **second)
                require(two == exp2, lambda: "template %r substituted with %s after %s gives %r, expected %r" % (src, case["vals2"], base, two, exp2))
                ctx.label("substituted again, other values")
            two = ctx.call("substitute %r again" % src, t.substitute, **given)
            require(one == two, lambda: "the template %r gives %r the first time and %r the second" % (src, one, two))
        return one

    got = go()
    require(got == exp, lambda: "template %r with %s gives %r, expected %r" % (src, base, got, exp))
    kinds = set()

    def collect(ns):
        for n in ns:
            kinds.add(n[0])
            for q in (n[3] if n[0] == "for" else [x for b in n[1] for x in b[1]] if n[0] == "if" else n[6] if n[0] == "def" else []):
                collect([q])

    collect(nodes)
    for k in kinds:
        ctx.label(k)
    ctx.label("delimiters given" if delims else "default delimiters", how)
    if dropped(src, spans):
        ctx.label("directives on their own lines")
    ctx.nontrivial(bool(exp) and bool(kinds & {"for", "if", "def"} or any(n[0] == "expr" and n[2] for n in nodes)))


# ---------------------------------------------------------------- errors


@st.composite
def errors(draw):
    pre = draw(st.lists(st.sampled_from(["", "ab", "x\n", "\n\n", "  two\nthree ", "{{# c}}", "{{py: z = 1}}\n", "{{# a\n b}} ", "{{z1}}\n"]), max_size=4))
    post = draw(st.lists(st.sampled_from(["", " tail", "\n", "\nmore\n", "{{# c}}", "{{z1}}"]), max_size=3))
    kind = draw(st.sampled_from(sorted(ERR)))
    return {"pre": "".join(pre), "post": "".join(post), "kind": kind, "name": draw(st.sampled_from([None, "file.tmpl"])), "offset": draw(st.sampled_from([0, 0, 7]))}


# source of the faulty part, index in it (after which the reported place is), place known?
ERR = {
    "continue": ("{{continue}}", 2), "break": ("{{break}}", 2), "else": ("{{else}}", 2), "elif": ("{{elif z1}}", 2), "endif": ("{{endif}}", 2),
    "endfor": ("{{endfor}}", 2), "enddef": ("{{enddef}}", 2), "if": ("{{if}}a{{endif}}", 2), "for": ("{{for}}a{{endfor}}", 2),
    "for x y": ("{{for x y}}{{endfor}}", 2), "for (": ("{{for (a, b) in y}}{{endfor}}", 2), "default": ("{{default x}}", 2),
    "default ,": ("{{default x, y = 3}}", 2), "default 1": ("{{default 1x = 3}}", 2), "py": ("{{py:x = 1\ny = 2}}", 2), "no endif": ("{{if z1}}text", 2),
    "no endfor": ("{{for q in [1]}}text", 2), "no enddef": ("{{def f()}}text", 2), "def": ("{{def f(a}}x{{enddef}}", 2), "def 1": ("{{def f(1)}}x{{enddef}}", 2),
    "crossed": ("{{if z1}}{{for x in []}}{{endif}}{{endfor}}", len("{{if z1}}{{for x in []}}{{")), "no end": ("{{z1", 2), "outside": ("a }}", 4),
    "inside": ("{{a {{b}}", 6), "else in for": ("{{for x in []}}{{else}}{{endfor}}", len("{{for x in []}}{{")), "continue in if": ("{{if z1}}\n{{continue}}{{endif}}", len("{{if z1}}\n{{")),
    "elif without": ("{{if z1}}x{{elif}}{{endif}}", len("{{if z1}}x{{")), "def *": ("{{def f(*a=1)}}x{{enddef}}", 2),
}
RUN = {"name": ("{{nowhere}}", "NameError"), "zero": ("{{1 // 0}}", "ZeroDivisionError"), "attr": ("{{z1.nothing}}", "AttributeError"), "exec": ("{{py: w = 1 // 0}}", "ZeroDivisionError"),
       "filter": ("{{z1|nofilter}}", "NameError"), "for": ("{{for q in nowhere}}{{endfor}}", "NameError"), "if": ("{{if nowhere}}{{endif}}", "NameError"),
       "default": ("{{default w = nowhere}}", "NameError"), "syntax": ("{{z1 z1}}", "SyntaxError"), "deep": ("{{if 1}}\n  {{for q in [1]}}\n a{{nowhere}}{{endfor}}{{endif}}", "NameError")}


def place(s, index, offset=0):
    return s.count("\n", 0, index) + 1 + offset, index - (s.rfind("\n", 0, index) + 1) + 1


def check_errors(case, ctx):
    import interpolation.tempita as T

    bad, rel = ERR[case["kind"]]
    src = case["pre"] + bad + case["post"]
    if case["kind"] in ("no endif", "no endfor", "no enddef", "no end", "inside") and ("}}" in case["post"]):
        src = case["pre"] + bad
    at = place(src, len(case["pre"]) + rel, case["offset"])
    kw = {} if case["name"] is None else {"name": case["name"]}
    try:
        ctx.calls += 1
        T.Template(src, line_offset=case["offset"], **kw)
    except T.TemplateError as e:
        require(tuple(e.position) == at, lambda: "the error in %r (%s) is reported at %s, it is at %s" % (src, e, e.position, at))
        require("line %d column %d" % at in str(e) and (case["name"] is None or case["name"] in str(e)), lambda: "the message %r does not tell where the error in %r is" % (str(e), src))
    except Exception as e:  # noqa: BLE001
        require(False, "template %r raised %s: %s instead of TemplateError" % (src, type(e).__name__, e))
    else:
        require(False, "the template %r was accepted" % src)
    ctx.label("syntax error: " + case["kind"])
    ctx.nontrivial()


@st.composite
def runs(draw):
    c = draw(errors())
    c["kind"] = draw(st.sampled_from(sorted(RUN)))
    return c


def check_runs(case, ctx):
    import interpolation.tempita as T

    bad, exc = RUN[case["kind"]]
    src = case["pre"] + bad + case["post"]
    inner = bad.rfind("{{nowhere") if case["kind"] == "deep" else 0
    at = place(src, len(case["pre"]) + inner + 2, case["offset"])
    kw = {} if case["name"] is None else {"name": case["name"]}
    t = ctx.call("Template(%r)" % src, T.Template, src, line_offset=case["offset"], **kw)
    try:
        ctx.calls += 1
        got = t.substitute(z1=4)
    except Exception as e:  # noqa: BLE001
        require("line %d column %d" % at in str(e), lambda: "the error %s in %r is at line %d column %d" % ((str(e)[:200], src) + at))
        require(case["name"] is None or case["name"] in str(e), lambda: "the error %s in %r does not name the template" % (str(e)[:200], src))
    else:
        require(False, "the template %r gave %r although it is wrong at %s" % (src, got, at))
    ctx.label("run time error: " + case["kind"])
    ctx.nontrivial()


# ---------------------------------------------------------------- HTML, bunch, inheritance

HT = st.text("ab<>&\"; =\u00e9", max_size=8)


@st.composite
def htmls(draw):
    parts = draw(st.lists(st.one_of(
        st.tuples(st.just("text"), st.text("ab<>&\"\n ", max_size=8)), st.tuples(st.just("var"), HT), st.tuples(st.just("html"), HT), st.tuples(st.just("none"), st.just("")),
        st.tuples(st.just("int"), st.integers(-5, 5)), st.tuples(st.just("attr"), st.dictionaries(st.sampled_from(["class_", "href", "id", "alt"]), st.one_of(st.none(), HT, st.integers(0, 9)), max_size=3)),
        st.tuples(st.just("url"), st.text("ab /?&<\u00e9", max_size=6))), max_size=7))
    return {"parts": [list(p) for p in parts], "how": draw(st.sampled_from(["sub_html", "HTMLTemplate"]))}


def check_html(case, ctx):
    import interpolation.tempita as T
    from urllib.parse import quote

    src, exp, vals = "", "", {}
    for i, (k, v) in enumerate(case["parts"]):
        n = "v%d" % i
        if k == "text":
            src += v
            exp += v
        elif k in ("var", "int", "none"):
            vals[n] = None if k == "none" else v
            src += "{{%s}}" % n
            exp += out_of(vals[n], True)
        elif k == "html":
            vals[n] = T.html(v)
            src += "{{%s}}" % n
            exp += v
        elif k == "attr":
            vals[n] = v
            src += "{{attr(**%s)}}" % n
            exp += " ".join('%s="%s"' % (a[:-1] if a.endswith("_") else a, out_of(w, True)) for a, w in sorted(v.items()) if w is not None)
        else:
            vals[n] = v
            src += "{{%s|url}}" % n
            exp += quote(v.encode("utf8"))
    if case["how"] == "sub_html":
        got = ctx.call("sub_html", T.sub_html, src, **vals)
    else:
        got = ctx.call("HTMLTemplate", lambda: T.HTMLTemplate(src).substitute(vals))
    require(got == exp, lambda: "HTML template %r with %s gives %r, expected %r" % (src, case["parts"], got, exp))
    for k, v in case["parts"]:
        if k == "var":
            q = ctx.call("html_quote", T.html_quote, v)
            require(q == out_of(v, True), lambda: "html_quote(%r) is %r" % (v, q))
    ctx.label(*sorted({"html " + k for k, _ in case["parts"]}))
    ctx.nontrivial(any(k != "text" and v for k, v in case["parts"]))


@st.composite
def bunches(draw):
    keys = st.sampled_from(["a", "b", "name", "default", "x1"])
    return {"d": draw(st.dictionaries(keys, INTS, max_size=4)), "set": draw(st.lists(st.tuples(keys, INTS, st.booleans()), max_size=4)), "probe": draw(st.lists(keys, min_size=1, max_size=5))}


def check_bunch(case, ctx):
    import interpolation.tempita as T

    b = ctx.call("bunch", T.bunch, **case["d"])
    m = dict(case["d"])
    for k, v, att in case["set"]:
        if att:
            setattr(b, k, v)
        else:
            b[k] = v
        m[k] = v
    require(dict(b) == m, lambda: "bunch holds %s, expected %s" % (dict(b), m))
    for k in case["probe"]:
        if k in m or "default" in m:
            e = m.get(k, m.get("default"))
            require(getattr(b, k) == e and b[k] == e, lambda: "bunch(%s)[%s] is %r" % (m, k, b[k]))
        else:
            try:
                getattr(b, k)
                require(False, "bunch(%s).%s exists" % (m, k))
            except AttributeError:
                pass
            ctx.rejects("bunch(%s)[%r]" % (m, k), lambda: b[k])
    r = ctx.call("repr", repr, b)
    require(r == "<bunch %s>" % " ".join("%s=%r" % kv for kv in sorted(m.items())), lambda: "repr of a bunch %s is %s" % (m, r))
    ctx.nontrivial(len(m) > 0)


@st.composite
def inherits(draw):
    return {"head": draw(st.booleans()), "title": draw(st.sampled_from(["T", "{{a}}", "x{{a + 1}}y"])), "body": draw(st.sampled_from(["", "text", "{{a}} and {{b}}", "l1\nl2\n"])),
            "a": draw(INTS), "b": draw(st.sampled_from(["s", "two"])), "base": draw(st.integers(0, 2)), "how": draw(st.sampled_from(["inherit", "default", "file"]))}


BASES = ["<{{self.body}}|{{self.get.title()}}>", "{{self.title()}}:{{a}}:{{self.body}}", "{{if a > 3}}big{{endif}}[{{self.get.nothing}}{{self.get.title()}}]{{self.body}}{{self.body}}"]


def check_inherit(case, ctx):
    import interpolation.tempita as T

    base = BASES[case["base"]]
    head = "{{def title()}}" + case["title"] + "{{enddef}}" if case["head"] or case["base"] == 1 else ""
    src = ("{{inherit 'base.txt'}}" if case["how"] != "default" else "") + head + case["body"]
    a, b = case["a"], case["b"]

    def sub(s):
        return s.replace("{{a + 1}}", str(a + 1)).replace("{{a}}", str(a)).replace("{{b}}", b)

    title, body = (sub(case["title"]) if head else ""), sub(case["body"])
    exp = [lambda: "<%s|%s>" % (body, title), lambda: "%s:%s:%s" % (title, a, body), lambda: "%s[%s]%s%s" % ("big" if a > 3 else "", title, body, body)][case["base"]]()
    if case["how"] == "file":
        d = tempfile.mkdtemp(prefix="vp_t_")
        try:
            for n, s in (("base.txt", base), ("page.txt", src)):
                with open(os.path.join(d, n), "w") as f:
                    f.write(s)
            got = ctx.call("inheriting from a file", lambda: T.Template.from_filename(os.path.join(d, "page.txt")).substitute(a=a, b=b))
        finally:
            shutil.rmtree(d)
    else:
        kw = {"default_inherit": "base.txt"} if case["how"] == "default" else {}
        got = ctx.call("inheriting %r from %r" % (src, base), lambda: T.Template(src, get_template=lambda n, t: T.Template(base, name=n), **kw).substitute(a=a, b=b))
    require(got == exp, lambda: "%r inheriting from %r gives %r, expected %r" % (src, base, got, exp))
    ctx.label("inheritance, " + case["how"])
    ctx.nontrivial()


@st.composite
def loops(draw):
    return {"seq": draw(st.lists(st.integers(0, 2), max_size=9)), "kind": draw(st.sampled_from(["int", "tuple", "str", "object", "dict"])), "lazy": draw(st.booleans())}


class Item:
    def __init__(self, v):
        self.v = v

    def half(self):
        return self.v // 2


def check_loops(case, ctx):
    import interpolation.tempita as T

    mk = {"int": int, "tuple": lambda v: (v // 2, v), "str": lambda v: "abc"[v], "object": Item, "dict": lambda v: {"k": v // 2, "v": v}}[case["kind"]]
    seq = [mk(v) for v in case["seq"]]
    getters = [(None, lambda q: q)] if case["kind"] != "object" else []
    getters += {"int": [(lambda q: q // 2, lambda q: q // 2)], "tuple": [(0, lambda q: q[0]), (1, lambda q: q[1])], "str": [(lambda q: q < "b", lambda q: q < "b"), (0, lambda q: q[0])],
                "object": [(".v", lambda q: q.v), (".half()", lambda q: q.v // 2)], "dict": [("k", lambda q: q["k"]), ("v", lambda q: q["v"])]}[case["kind"]]
    got = ctx.call("looper", lambda: list(T.Template.default_namespace["looper"](iter(seq) if case["lazy"] else seq)))
    require([x for _, x in got] == seq, "looper goes through other items")
    for (lp, x), m in zip(got, [q for q, _ in model_looper(seq)]):
        for a in ("index", "number", "item", "length", "first", "last", "odd", "even", "previous", "__next__"):
            g, e = getattr(lp, a), getattr(m, a)
            same = bool(g) == bool(e) if a in ("odd", "even", "first", "last") else g == e
            require(same, lambda: "loop.%s at place %d of %s is %r, expected %r" % (a, m.index, seq, g, e))
        for g, f in getters:
            for a in ("first_group", "last_group"):
                q = ctx.call(a, getattr(lp, a), *([] if g is None else [g]))
                require(bool(q) == getattr(m, a)(f), lambda: "loop.%s(%r) at place %d of %s is %r" % (a, g, m.index, case["seq"], q))
    ctx.label("looper over %s" % case["kind"])
    ctx.nontrivial(len(seq) > 1)


def units(tier, seed):
    us = [Unit("program%d" % i, cases, check, quick=450, thorough=6000, cost=4) for i in range(7)]
    us.append(Unit("syntax-errors", errors, check_errors, quick=500, thorough=5000, cost=1))
    us.append(Unit("runtime-errors", runs, check_runs, quick=400, thorough=4000, cost=1))
    us.append(Unit("html", htmls, check_html, quick=400, thorough=4000, cost=1))
    us.append(Unit("bunch", bunches, check_bunch, quick=300, thorough=3000, cost=1))
    us.append(Unit("looper", loops, check_loops, quick=300, thorough=3000, cost=1))
    us.append(Unit("inheritance", inherits, check_inherit, quick=200, thorough=2000, cost=1))
    return us
