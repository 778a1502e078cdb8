"""Models of templates: expressions, nodes, their printed source, and a reference interpreter.

The interpreter follows the book (and Rust for expressions); it shares no code with askama."""

WS = " \t\r\n"


class RenderErr(Exception):
    def __init__(self, kind):
        self.kind = kind


class Brk(Exception):
    pass


class Cont(Exception):
    pass


UNINIT = object()

# characters with the Unicode property White_Space
UWS = "\t\n\x0b\x0c\r \x85\xa0\u1680" + "".join(map(chr, range(0x2000, 0x200b))) + "\u2028\u2029\u202f\u205f\u3000"


def uwords(s):
    """How many runs of other characters there are"""
    n, inside = 0, False
    for c in s:
        if c in UWS:
            inside = False
        elif not inside:
            n, inside = n + 1, True
    return n

# --------------------------------------------------------------------------------------------
# values

ESC = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&#x27;"}


def esc_html(s):
    return "".join(ESC.get(c, c) for c in s)


def esc_text(s):
    return s


def esc_brackets(s):
    return "".join(f"[{ord(c)}]" if c in ESC else c for c in s)


ESCAPERS = {"html": esc_html, "text": esc_text, "brackets": esc_brackets}
# names accepted by the `escape` filter and the escape attribute
ESC_NAMES = {"html": "html", "htm": "html", "svg": "html", "xml": "html", "txt": "text", "none": "text", "md": "text", "": "text"}


def disp(v):
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, (int, str)):
        return str(v)
    if isinstance(v, Fail):
        raise RenderErr("fmt")
    raise AssertionError(f"not displayable: {v!r}")


class Fail:
    pass


# --------------------------------------------------------------------------------------------
# expressions

P_OR, P_AND, P_CMP, P_BOR, P_BXOR, P_BAND, P_SH, P_ADD, P_MUL, P_FILT, P_UN, P_SUF, P_ATOM = range(1, 14)
BINOPS = {"||": P_OR, "&&": P_AND, "==": P_CMP, "!=": P_CMP, ">=": P_CMP, ">": P_CMP, "<=": P_CMP, "<": P_CMP,
          "|": P_BOR, "^": P_BXOR, "&": P_BAND, "<<": P_SH, ">>": P_SH, "+": P_ADD, "-": P_ADD, "*": P_MUL,
          "/": P_MUL, "%": P_MUL}


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def trem(a, b):
    return a - b * tdiv(a, b)


class X:
    """An expression: kind, operands, type, reference depth, bound of the absolute value (ints)."""

    def __init__(self, k, *a, ty="int", dep=0, bound=0):
        self.k, self.a, self.ty, self.dep, self.bound = k, a, ty, dep, bound

    def prec(self):
        if self.k == "bin":
            return BINOPS[self.a[0]]
        return {"un": P_UN, "filt": P_FILT, "range": 0}.get(self.k, P_ATOM if self.k in ATOMS else P_SUF)

    # -- printing ------------------------------------------------------------------------

    def src(self, sp=None):
        """`sp(default)` returns insignificant white space."""
        sp = sp or (lambda d="": d)
        return self._s(0, sp)

    def _s(self, minp, sp):
        s = self._p(sp)
        if self.prec() < minp:
            return "(" + sp() + s + sp() + ")"
        return s

    def _p(self, sp):
        k, a = self.k, self.a
        if k == "lit":
            return a[0]
        if k == "var":
            return a[0]
        if k == "path":
            return "::".join(a[0])
        if k == "group":
            return "(" + sp() + a[0]._s(0, sp) + sp() + ")"
        if k == "tuple":
            return "(" + commas([x._s(0, sp) for x in a[0]], sp, len(a[0]) == 1) + ")"
        if k == "array":
            return "[" + commas([x._s(0, sp) for x in a[0]], sp) + "]"
        if k == "attr":
            return a[0]._s(P_SUF, sp) + seldom(sp) + "." + (seldom(sp) if self.spaced() else "") + str(a[1])
        if k in ("index", "slice"):
            return a[0]._s(P_SUF, sp) + seldom(sp) + "[" + sp() + a[1]._s(0, sp) + sp() + "]"
        if k == "meth":
            return a[0]._s(P_SUF, sp) + seldom(sp) + "." + seldom(sp) + a[1] + seldom(sp) + "(" + commas([x._s(0, sp) for x in a[2]], sp) + ")"
        if k == "fn":
            return a[0] + seldom(sp) + "(" + commas([x._s(0, sp) for x in a[1]], sp) + ")"
        if k == "callx":
            return a[0]._s(P_SUF, sp) + seldom(sp) + "(" + commas([x._s(0, sp) for x in a[1]], sp) + ")"
        if k == "try":
            return a[0]._s(P_SUF, sp) + seldom(sp) + "?"
        if k == "macro":
            return a[0] + seldom(sp) + "!" + seldom(sp) + "(" + a[1] + ")"
        if k == "un":
            return a[0] + sp() + a[1]._s(P_UN, sp)
        if k == "filt":
            args = a[2]
            s = a[0]._s(P_FILT, sp) + "|" + sp() + a[1]
            if args:
                s += seldom(sp) + "(" + commas([x._s(0, sp) for x in args], sp) + ")"
            return s
        if k == "range":
            return (a[1]._s(P_OR, sp) + seldom(sp) if a[1] else "") + a[0] + (seldom(sp) + a[2]._s(P_OR, sp) if a[2] else "")
        if k == "bin":
            p = BINOPS[a[0]]
            # comparisons cannot be chained in Rust
            lp = p + 1 if p == P_CMP else p
            l, r = a[1]._s(lp, sp), a[2]._s(p + 1, sp)
            if a[0] == "|" and l[-1:] != ")" and ends_in_filter(a[1]):
                # "x|f | y" is a chain of filters
                l = "(" + l + ")"
            return l + (" " + sp()) + a[0] + (" " + sp()) + r
        raise AssertionError(k)

    def spaced(self):
        """Not `x. 0`"""
        return not isinstance(self.a[1], int)

    # -- evaluation ----------------------------------------------------------------------

    def ev(self, I):
        k, a = self.k, self.a
        if k == "lit":
            return a[1]
        if k == "var":
            return I.lookup(a[0])
        if k == "path":
            return a[1]
        if k == "group":
            return a[0].ev(I)
        if k in ("tuple", "array"):
            v = [x.ev(I) for x in a[0]]
            return tuple(v) if k == "tuple" else v
        if k == "attr":
            if a[0].k == "var" and a[0].a[0] == "loop":
                return I.loop_attr(a[1])
            if a[0].k == "var" and a[0].a[0] == "self":
                return I.fields[a[1]]
            o = a[0].ev(I)
            return o[a[1]]
        if k == "slice":
            lo, hi = (b.ev(I) if b else None for b in a[1].a[1:])
            return a[0].ev(I)[lo:hi]
        if k == "index":
            return a[0].ev(I)[a[1].ev(I)]
        if k == "meth":
            if a[0].k == "var" and a[0].a[0] == "loop":
                arr = a[2][0].ev(I)
                if not arr:
                    raise RenderErr("fmt")
                return arr[I.loops[-1]["index0"] % len(arr)]
            o = a[0].ev(I)
            args = [x.ev(I) for x in a[2]]
            if a[1] == "tick":
                return _ti(I, 99001, o["qty"])
            return METHODS[a[1]](o, *args)
        if k == "fn":
            args = [x.ev(I) for x in a[1]]
            f = FNS.get(a[0]) or I.lookup(a[0])
            return (VALUES[f] if isinstance(f, str) else f)(I, *args)
        if k == "try":
            r = a[0].ev(I)
            if r[0] == "Err":
                raise RenderErr(f"custom{r[1]}")
            return r[1]
        if k == "macro":
            return a[2](I)
        if k == "un":
            v = a[1].ev(I)
            if a[0] == "!":
                return (not v) if isinstance(v, bool) else ~v
            return -v
        if k == "filt":
            v = a[0].ev(I)
            args = [x.ev(I) for x in a[2]]
            return I.filter(a[1], v, args)
        if k == "range":
            return range(a[1].ev(I), a[2].ev(I) + (1 if a[0] == "..=" else 0))
        if k == "bin":
            op = a[0]
            l = a[1].ev(I)
            if op == "&&":
                return l and a[2].ev(I)
            if op == "||":
                return l or a[2].ev(I)
            r = a[2].ev(I)
            return OPS[op](l, r)
        raise AssertionError(k)


def ends_in_filter(x):
    if x.k == "filt":
        return True
    if x.k == "bin":
        return ends_in_filter(x.a[2])
    if x.k == "un":
        return ends_in_filter(x.a[1])
    return False


ATOMS = ("lit", "var", "path", "group", "tuple", "array")
OPS = {
    "==": lambda l, r: l == r, "!=": lambda l, r: l != r, ">=": lambda l, r: l >= r, ">": lambda l, r: l > r,
    "<=": lambda l, r: l <= r, "<": lambda l, r: l < r, "|": lambda l, r: l | r, "^": lambda l, r: l ^ r,
    "&": lambda l, r: l & r, "<<": lambda l, r: l << r, ">>": lambda l, r: l >> r, "+": lambda l, r: l + r,
    "-": lambda l, r: l - r, "*": lambda l, r: l * r, "/": tdiv, "%": trem,
}
METHODS = {
    "abs": lambda o: abs(o), "pow": lambda o, n: o ** n, "len": lambda o: len(o.encode()) if isinstance(o, str) else len(o),
    "is_empty": lambda o: len(o) == 0, "contains": lambda o, s: s in o, "is_some": lambda o: o is not None,
    "is_none": lambda o: o is None, "clone": lambda o: o, "as_str": lambda o: o, "iter": lambda o: o,
    "rev": lambda o: list(o)[::-1], "enumerate": lambda o: list(enumerate(o)), "min": lambda o, x: min(o, x),
    "max": lambda o, x: max(o, x), "to_string": lambda o: disp(o), "unwrap_or": lambda o, d: d if o is None else o,
    "to_owned": lambda o: o, "trim": lambda o: o.strip(UWS), "starts_with": lambda o, s: o.startswith(s),
    "chars": lambda o: list(o), "is_positive": lambda o: o > 0, "signum": lambda o: (o > 0) - (o < 0),
}


def _log(I, i):
    I.trace.append(i)


def _ti(I, i, v):
    _log(I, i)
    return v


def _ts(I, i, v):
    _log(I, i)
    return disp(v)


def _tok(I, i, v):
    _log(I, i)
    return ("Ok", v) if v > 0 else ("Err", i)


def _tfail(I, i):
    _log(I, i)
    return Fail()


def dbl(I, v):
    return 2 * v


# functions in fields, by their names
VALUES = {"dbl": dbl, "neg": lambda I, v: -v}
FNS = {"t::i": _ti, "t::b": _ti, "t::s": _ts, "t::ok": _tok, "t::fail": _tfail, "t::none": lambda I: [], "t::tick": lambda I: _ti(I, 99002, 7), "t::hook": lambda I: "\u00b7",
       "t::chunks": lambda I, v: disp(v),
       "t::n": lambda I, v: v, "t::u": _ti, "t::bb": lambda I, v: v, "t::ss": lambda I, v: disp(v),
       "t::again": lambda I, n: list(range(1, n + 1)), "t::hints": lambda I, v: list(v), "t::but": lambda I, i, at: Fail() if i == at else str(i),
       "t::grid": lambda I, v: [list(v), [1], list(v)[1:]], "t::oks": lambda I, v: ("Ok", list(v)), "t::p2s": lambda I, v: [{"x": x, "y": str(x + 1)} for x in v],
       "t::count": lambda I, r: len(r), "t::unit": lambda I: (), "::std::clone::Clone::clone": lambda I, v: v, "crate::rt::t::tick": lambda I: _ti(I, 99002, 7), "crate::rt::t::n": lambda I, v: v, "rt::t::n": lambda I, v: v,
       "t :: n": lambda I, v: v, ":: std :: string::ToString :: to_string": lambda I, v: disp(v),
       "t::p2": lambda I, x, y: {"x": x, "y": disp(y)}}



def truncate(s, n):
    """`n` bytes at least, up to the end of the character"""
    b = s.encode()
    if len(b) <= n:
        return s
    while n < len(b) and (b[n] & 0xC0) == 0x80:
        n += 1
    return s if n >= len(b) else b[:n].decode() + "..."


# --------------------------------------------------------------------------------------------
# nodes


class Lit:
    def __init__(self, text):
        self.text = text
        self.out = None

    def emit(self, E):
        E.lit(self)

    def run(self, I):
        I.w(self.out)


class Raw:
    def __init__(self, ws1, lit, ws2):
        self.ws1, self.lit, self.ws2 = ws1, lit, ws2

    def emit(self, E):
        E.tag("b", self.ws1, "raw")
        E.lit(self.lit)
        E.tag("b", self.ws2, "endraw")

    def run(self, I):
        I.w(self.lit.out)


class Comment:
    def __init__(self, ws, text):
        self.ws, self.text = ws, text

    def emit(self, E):
        E.tag("c", self.ws, self.text)

    def run(self, I):
        pass


class Expr:
    def __init__(self, ws, x):
        self.ws, self.x = ws, x

    def emit(self, E):
        E.tag("e", self.ws, self.x.src(E.sp))

    def run(self, I):
        I.w(I.show(self.x))


class Let:
    """target: name, or list of names (tuple), or ("struct", path, [(field, name)])"""

    def __init__(self, ws, target, x, kw="let"):
        self.ws, self.target, self.x, self.kw = ws, target, x, kw

    def emit(self, E):
        t = self.target
        if isinstance(t, list):
            t = "(" + commas(t, E.sp, len(t) == 1) + ")"
        elif isinstance(t, tuple):
            t = t[1] + E.sp(" ") + "{" + fields([(f, Pat("name", n)) for f, n in t[2]], E.sp) + "}"
        elif isinstance(t, Pat):
            t = t.src(E.sp)
        s = self.kw + E.sp(" ") + t
        if self.x is not None:
            s += E.sp(" ") + "=" + E.sp(" ") + self.x.src(E.sp)
        E.tag("b", self.ws, s)

    def run(self, I):
        if self.x is None:
            I.declare(self.target, UNINIT)
            return
        v = self.x.ev(I)
        t = self.target
        if isinstance(t, Pat):
            b = {}
            assert t.match(v, b)
            for n, e in b.items():
                I.assign(n, e)
        elif isinstance(t, list):
            for n, e in zip(t, v):
                I.assign(n, e)
        elif isinstance(t, tuple):
            for f, n in t[2]:
                I.assign(n, v[f])
        else:
            I.assign(t, v)


class If:
    """branches: [(ws, cond, nodes)], cond: X, ("let", pattern, X) or None; end: ws"""

    def __init__(self, branches, end, elif_kw=None):
        self.branches, self.end = branches, end
        self.elif_kw = elif_kw or (lambda: "else if")

    def emit(self, E):
        for i, (ws, cond, nodes) in enumerate(self.branches):
            kw = "if" if i == 0 else (self.elif_kw() if cond is not None else "else")
            if cond is None:
                E.tag("b", ws, kw)
            elif isinstance(cond, tuple):
                kw = kw.replace(" ", E.sp(" "))
                E.tag("b", ws, kw + E.sp(" ") + ("set" if E.sp() == "\n" else "let") + E.sp(" ") + cond[1].src(E.sp) + E.sp(" ") + "=" + E.sp(" ") + cond[2].src(E.sp))
            else:
                E.tag("b", ws, kw.replace(" ", E.sp(" ")) + E.sp(" ") + cond.src(E.sp))
            E.nodes(nodes)
        E.tag("b", self.end, "endif")

    def run(self, I):
        for ws, cond, nodes in self.branches:
            binds = {}
            if cond is None:
                ok = True
            elif isinstance(cond, tuple):
                ok = cond[1].match(cond[2].ev(I), binds)
            else:
                ok = cond.ev(I)
            if ok:
                I.push(binds)
                try:
                    I.run(nodes)
                finally:
                    I.pop()
                return


def seldom(sp):
    """White space where it is unusual"""
    return sp() and sp()


def commas(parts, sp, single=False):
    """A list, with insignificant white space, and maybe with a comma at its end"""
    if not parts:
        return seldom(sp)
    r = sp()
    for i, p in enumerate(parts):
        r += (seldom(sp) + "," + sp(" ") if i else "") + p
    if single or sp() in ("\n", "\t"):
        r += seldom(sp) + ","
    return r + sp()


def fields(fs, sp):
    return sp(" ") + commas([f if p.k == "name" and p.a[0] == f and sp() != "\n" else f + seldom(sp) + ":" + sp(" ") + p.src(sp) for f, p in fs], sp) + sp(" ")


class Pat:
    """k: name(n) | wild | lit(src, value) | none | some(p) | ok(p) | err(p) | enA | enB(p) | enC([(field, p)], ) | tuple([p]) | or([p])"""

    def __init__(self, k, *a):
        self.k, self.a = k, a
        self.pre = ""       # the path the name is in

    def src(self, sp=None):
        sp = sp or (lambda d="": d)
        k, a = self.k, self.a
        if k == "paren":
            return "(" + sp() + a[0].src(sp) + sp() + ")"
        if k == "unit":
            return "(" + sp() + ")"
        if k == "st":
            return self.pre + a[0] + sp(" ") + "{" + fields(a[1], sp) + "}"
        if k == "name":
            return a[0]
        if k == "wild":
            return "_"
        if k == "lit":
            return a[0]
        if k == "none":
            return self.pre + "None"
        if k in ("some", "ok", "err", "enB"):
            n = {"some": "Some", "ok": "Ok", "err": "Err", "enB": "En::B"}[k]
            return self.pre + n + (sp(" ") + "with" + sp(" ") if len(a) > 1 and a[1] else seldom(sp)) + "(" + commas([a[0].src(sp)], sp) + ")"
        if k == "enA":
            return self.pre + "En::A"
        if k == "enC":
            return self.pre + "En::C" + (sp(" ") + "with" + sp(" ") if len(a) > 1 and a[1] else sp(" ")) + "{" + fields(a[0], sp) + "}"
        if k == "tuple":
            return "(" + commas([p.src(sp) for p in a[0]], sp, len(a[0]) == 1) + ")"
        if k == "or":
            return "".join((sp(" ") + "or" + sp(" ") if i else "") + p.src(sp) for i, p in enumerate(a[0]))
        raise AssertionError(k)

    def match(self, v, b):
        k, a = self.k, self.a
        if k == "paren":
            return a[0].match(v, b)
        if k == "unit":
            return True
        if k == "st":
            return all(p.match(v[f], b) for f, p in a[1])
        if k == "name":
            b[a[0]] = v
            return True
        if k == "wild":
            return True
        if k == "lit":
            return v == a[1] and isinstance(v, bool) == isinstance(a[1], bool)
        if k == "none":
            return v is None
        if k == "some":
            return v is not None and a[0].match(v, b)
        if k in ("ok", "err"):
            return v[0] == ("Ok" if k == "ok" else "Err") and a[0].match(v[1], b)
        if k == "enA":
            return v[0] == "A"
        if k == "enB":
            return v[0] == "B" and a[0].match(v[1], b)
        if k == "enC":
            return v[0] == "C" and all(p.match(v[1][f], b) for f, p in a[0])
        if k == "tuple":
            return all(p.match(e, b) for p, e in zip(a[0], v))
        if k == "or":
            for p in a[0]:
                nb = {}
                if p.match(v, nb):
                    b.update(nb)
                    return True
            return False
        raise AssertionError(k)


class Match:
    """arms: [(ws, Pat or None for else, nodes)]"""

    def __init__(self, ws1, x, arms, ws2, between=""):
        self.ws1, self.x, self.arms, self.ws2, self.between = ws1, x, arms, ws2, between

    def emit(self, E):
        for i, (ws, pat, nodes) in enumerate(self.arms):
            s = "else" if pat is None else "when" + E.sp(" ") + pat.src(E.sp)
            if i == 0:
                # white space between `match` and the first arm is dropped
                # and comments
                between = self.between.replace("{#", E.syn["cs"]).replace("#}", E.syn["ce"])
                E.tag2("match" + E.sp(" ") + self.x.src(E.sp), self.ws1, between, s, ws)
            else:
                E.tag("b", ws, s)
            E.nodes(nodes)
        E.tag("b", self.ws2, "endmatch")

    def run(self, I):
        v = self.x.ev(I)
        for ws, pat, nodes in self.arms:
            b = {}
            if pat is None or pat.match(v, b):
                I.push(b)
                try:
                    I.run(nodes)
                finally:
                    I.pop()
                return
        raise AssertionError("match not exhaustive")


class For:
    def __init__(self, ws1, target, it, cond, body, ws2, els, ws3):
        self.ws1, self.target, self.it, self.cond, self.body, self.ws2, self.els, self.ws3 = ws1, target, it, cond, body, ws2, els, ws3

    def emit(self, E):
        t = self.target if isinstance(self.target, str) else self.target.src(E.sp) if isinstance(self.target, Pat) else "(" + commas(self.target, E.sp, len(self.target) == 1) + ")"
        s = "for" + E.sp(" ") + t + E.sp(" ") + "in" + E.sp(" ") + self.it.src(E.sp)
        if self.cond is not None:
            s += E.sp(" ") + "if" + E.sp(" ") + self.cond.src(E.sp)
        E.tag("b", self.ws1, s)
        E.nodes(self.body)
        if self.els is not None:
            E.tag("b", self.ws2, "else")
            E.nodes(self.els)
            E.tag("b", self.ws3, "endfor")
        else:
            E.tag("b", (self.ws2[0], self.ws3[1]), "endfor")

    def bind(self, v):
        if isinstance(self.target, Pat):
            b = {}
            assert self.target.match(v, b)
            return b
        return {self.target: v} if isinstance(self.target, str) else dict(zip(self.target, v))

    def run(self, I):
        vals = self.it.ev(I)
        if vals is None:
            vals = []
        elif self.it.ty == "opt":
            vals = [vals]
        elif isinstance(vals, str):
            vals = list(vals)
        items = []
        for v in vals:
            if self.cond is not None:
                I.push(self.bind(v))
                ok = self.cond.ev(I)
                I.pop()
                if not ok:
                    continue
            items.append(v)
        for i, v in enumerate(items):
            I.loops.append({"index": i + 1, "index0": i, "first": i == 0, "last": i == len(items) - 1})
            I.push(self.bind(v))
            try:
                I.run(self.body)
            except Brk:
                break
            except Cont:
                continue
            finally:
                I.pop()
                I.loops.pop()
        if not items and self.els is not None:
            I.push({})
            try:
                I.run(self.els)
            finally:
                I.pop()


class Break:
    def __init__(self, ws):
        self.ws = ws

    def emit(self, E):
        E.tag("b", self.ws, "break")

    def run(self, I):
        raise Brk()


class Continue(Break):
    def emit(self, E):
        E.tag("b", self.ws, "continue")

    def run(self, I):
        raise Cont()


class Macro:
    def __init__(self, ws1, name, params, body, ws2, named_end=False):
        self.ws1, self.name, self.params, self.body, self.ws2, self.named_end = ws1, name, params, body, ws2, named_end
        self.file = None

    def emit(self, E):
        params = "" if not self.params and E.sp() else seldom(E.sp) + "(" + commas(self.params, E.sp) + ")"
        E.tag("b", self.ws1, "macro" + E.sp(" ") + self.name + params)
        E.nodes(self.body)
        E.tag("b", self.ws2, "endmacro" + (E.sp(" ") + self.name if self.named_end else ""))

    def run(self, I):
        pass


class Call:
    """args: [(param name or None, X)]"""

    def __init__(self, ws, scope, name, args, noparen=False):
        self.ws, self.scope, self.name, self.args, self.noparen = ws, scope, name, args, noparen

    def emit(self, E):
        s = "call" + E.sp(" ") + (self.scope + seldom(E.sp) + "::" + seldom(E.sp) if self.scope else "") + self.name
        if not (self.noparen and not self.args):
            s += seldom(E.sp) + "(" + commas([(n + E.sp() + "=" + E.sp() if n else "") + x.src(E.sp) for n, x in self.args], E.sp) + ")"
        E.tag("b", self.ws, s)

    def run(self, I):
        if self.scope:
            f = I.file.imports[self.scope]
            m = f.macros[self.name]
        else:
            m = I.file.macros[self.name]
            f = I.file
        named = {n: x for n, x in self.args if n}
        pos = [x for n, x in self.args if not n]
        binds = {}
        for i, p in enumerate(m.params):
            binds[p] = (named[p] if p in named else pos[i]).ev(I)
        I.enter(f, binds)
        try:
            I.run(m.body)
        finally:
            I.leave()


class Include:
    def __init__(self, ws, path, file):
        self.ws, self.path, self.file = ws, path, file

    def emit(self, E):
        E.tag("b", self.ws, f'include{E.sp(" ")}"{self.path}"')

    def run(self, I):
        f = self.file.merged(I.file)
        old, ob = I.file, I.blocks
        root, blocks = heritage(f)
        I.file, I.blocks = root, blocks
        I.push({})
        try:
            I.run(root.nodes)
        finally:
            I.pop()
            I.file, I.blocks = old, ob


class Import:
    def __init__(self, ws, path, scope, file):
        self.ws, self.path, self.scope, self.file = ws, path, scope, file

    def emit(self, E):
        E.tag("b", self.ws, f'import{E.sp(" ")}"{self.path}"{E.sp(" ")}as{E.sp(" ")}{self.scope}')

    def run(self, I):
        pass


class Extends:
    def __init__(self, path, file):
        self.path, self.file = path, file

    def emit(self, E):
        E.tag("b", ("", ""), f'extends{E.sp(" ")}"{self.path}"')

    def run(self, I):
        pass


class Block:
    def __init__(self, ws1, name, body, ws2, named_end=False):
        self.ws1, self.name, self.body, self.ws2, self.named_end = ws1, name, body, ws2, named_end

    def emit(self, E):
        E.tag("b", self.ws1, "block" + E.sp(" ") + self.name)
        E.nodes(self.body)
        E.tag("b", self.ws2, "endblock" + (E.sp(" ") + self.name if self.named_end else ""))

    def run(self, I):
        I.block(self.name, 0)


class Super:
    def __init__(self, ws):
        self.ws = ws

    def emit(self, E):
        E.tag("b", self.ws, "call" + E.sp(" ") + "super" + seldom(E.sp) + "(" + seldom(E.sp) + ")")

    def run(self, I):
        name, gen = I.cur_block
        I.block(name, gen + 1)


class FilterBlock:
    """filters: [(name, [X])] applied left to right"""

    def __init__(self, ws1, filters, body, ws2):
        self.ws1, self.filters, self.body, self.ws2 = ws1, filters, body, ws2

    def emit(self, E):
        def one(f):
            return f[0] + (seldom(E.sp) + "(" + commas([x.src(E.sp) for x in f[1]], E.sp) + ")" if f[1] else "")
        E.tag("b", self.ws1, "filter" + E.sp(" ") + ("|" + seldom(E.sp)).join(one(f) for f in self.filters))
        E.nodes(self.body)
        E.tag("b", self.ws2, "endfilter")

    def run(self, I):
        old = I.out
        I.out = []
        try:
            I.run(self.body)
            text = "".join(I.out)
        finally:
            I.out = old
        v = text
        for name, args in self.filters[:-1]:
            v = I.filter(name, v, [x.ev(I) for x in args])
        name, args = self.filters[-1]
        x = X("filt", X("lit", "", v), name, args)
        I.w(I.show(x))


# --------------------------------------------------------------------------------------------
# files


class File:
    def __init__(self, path, nodes, trailing=""):
        self.path, self.nodes, self.trailing = path, nodes, trailing
        self.macros, self.imports, self.blocks, self.extends = {}, {}, {}, None
        self.scan(nodes)

    def scan(self, nodes):
        for n in nodes:
            if isinstance(n, Macro):
                self.macros[n.name] = n
                n.file = self
            elif isinstance(n, Import):
                self.imports[n.scope] = n.file
            elif isinstance(n, Extends):
                self.extends = n.file
        self._blocks(nodes)

    def _blocks(self, nodes):
        for n in nodes:
            if isinstance(n, Block):
                self.blocks[n.name] = n
                self._blocks(n.body)
            elif isinstance(n, If):
                for b in n.branches:
                    self._blocks(b[2])
            elif isinstance(n, Match):
                for b in n.arms:
                    self._blocks(b[2])
            elif isinstance(n, For):
                self._blocks(n.body)
                self._blocks(n.els or [])
            elif isinstance(n, FilterBlock):
                self._blocks(n.body)

    def merged(self, outer):
        """This file as seen from an including or inheriting context: additional macros and imports."""
        f = File.__new__(File)
        f.__dict__.update(self.__dict__)
        f.macros = {**outer.macros, **self.macros}
        f.imports = {**outer.imports, **self.imports}
        return f

    def text(self, syn=None, sp=None, whitespace=None):
        E = Emit(syn, sp)
        E.nodes(self.nodes)
        E.finish(whitespace or "preserve", self.trailing)
        return E.source() + self.trailing


def heritage(f):
    """(root, {block: [(file, Block), ...most derived first]})"""
    blocks = {}
    while True:
        for n, b in f.blocks.items():
            blocks.setdefault(n, []).append((f, b))
        if f.extends is None:
            return f, blocks
        f = f.extends


DEFAULT_SYN = {"bs": "{%", "be": "%}", "es": "{{", "ee": "}}", "cs": "{#", "ce": "#}"}


def bracket_depth(s):
    d = m = 0
    for c in s:
        if c in "([{":
            d += 1
            m = max(m, d)
        elif c in ")]}":
            d -= 1
    return m


class Emit:
    """Prints nodes and works out what becomes of the white space of each literal."""

    def __init__(self, syn=None, sp=None):
        self.syn = syn or DEFAULT_SYN
        self.sp = sp or (lambda d="": d)
        self.parts = []
        self.toks = []   # Lit, or (left sign, right sign)
        self.kinds = []
        self.spans = []  # of the tags, in bytes

    def nodes(self, ns):
        for n in ns:
            n.emit(self)

    def lit(self, l):
        self.parts.append(l.text)
        self.toks.append(l)
        self.kinds.append("lit")

    def wrap(self, kind, ws, inner):
        y = self.syn
        if kind != "c" and bracket_depth(inner) > 6:
            # the parser limits how deep expressions nest
            raise OverflowError("expression is too deep")
        o, c = {"b": (y["bs"], y["be"]), "e": (y["es"], y["ee"]), "c": (y["cs"], y["ce"])}[kind]
        a = self.sp(" ")
        if a == "" and (inner[:1] in "-+~" or kind == "c" or not (inner[:1].isalnum() and not o[-1:].isalnum())):
            a = " "
        b = self.sp(" ")
        if b == "" and (kind == "c" or not (inner[-1:].isalnum() or inner[-1:] in ")]\"'")):
            b = " "
        if b == "" and not ws[1] and (c[:1].isalnum() or c[:1] in "-+~\"'([.?|!"):
            b = " "
        return o + ws[0] + a + inner + b + ws[1] + c

    def span(self, text):
        a = sum(len(p.encode()) for p in self.parts)
        self.spans.append((a, a + len(text.encode())))
        self.parts.append(text)

    def tag(self, kind, ws, inner):
        self.span(self.wrap(kind, ws, inner))
        self.toks.append(ws)
        self.kinds.append(inner.split(None, 1)[0].split("(")[0] if kind == "b" else kind)

    def tag2(self, inner1, ws1, between, inner2, ws2):
        self.span(self.wrap("b", ws1, inner1))
        self.parts.append(between)
        self.span(self.wrap("b", ws2, inner2))
        self.toks.append((ws1[0], ws2[1]))
        self.kinds.append("match")

    def source(self):
        return "".join(self.parts)

    def finish(self, default, trailing):
        toks = self.toks
        self.ambiguous = False
        for i, l in enumerate(toks):
            if not isinstance(l, Lit):
                continue
            left = toks[i - 1][1] if i > 0 else None      # sign of the tag before: its closing side
            right = toks[i + 1][0] if i + 1 < len(toks) else None
            l.out = ws_lit(l.text, left, right, default)
            # A single `+` or `~` at white space between two tags: the book does not tell
            # whether it prevails over the configured default of the other side.
            if default != "preserve" and l.text.strip(WS) == "" and l.text and None not in (left, right):
                if (left == "") != (right == "") and "-" not in (left, right):
                    self.ambiguous = True


SIGN = {"-": "suppress", "~": "minimize", "+": "preserve"}


def mini(s):
    return s and ("\n" if "\n" in s else " ")


def ws_lit(text, left, right, default):
    """left/right: sign of the adjacent tag, "" for no sign, None for no tag (start/end of the file)."""
    def eff(s):
        return "preserve" if s is None else SIGN.get(s, default)
    core = text.strip(WS)
    if core == "":
        if text == "":
            return ""
        # Two controls point to the same span: suppress, then minimize, then preserve;
        # controls written in the tag have precedence over the default.
        inline = [SIGN[s] for s in (left, right) if s]
        cand = inline or [eff(s) for s in (left, right) if s is not None] or ["preserve"]
        for how in ("suppress", "minimize", "preserve"):
            if how in cand:
                return {"suppress": "", "minimize": mini(text), "preserve": text}[how]
    i = text.index(core[0])
    l = text[:len(text) - len(text.lstrip(WS))]
    r = text[len(text.rstrip(WS)):]
    f = {"suppress": lambda s: "", "minimize": mini, "preserve": lambda s: s}
    return f[eff(left)](l) + core + f[eff(right)](r)


# --------------------------------------------------------------------------------------------
# interpreter


class Interp:
    def __init__(self, fields, escaper="html"):
        self.fields = fields
        self.escaper = escaper
        self.esc_names = ESC_NAMES
        self.frames = [{}]
        self.stack = []
        self.loops = []
        self.out = []
        self.trace = []
        self.file = None
        self.blocks = {}
        self.cur_block = None
        self.budget = 200000

    # scopes
    def push(self, d):
        self.frames.append(dict(d))

    def pop(self):
        self.frames.pop()

    def enter(self, file, binds):
        self.stack.append((self.frames, self.file, self.loops))
        self.frames, self.file = [dict(binds)], file

    def leave(self):
        self.frames, self.file, self.loops = self.stack.pop()

    def lookup(self, n):
        for f in reversed(self.frames):
            if n in f:
                assert f[n] is not UNINIT, n
                return f[n]
        return self.fields[n]

    def declare(self, n, v):
        self.frames[-1][n] = v

    def assign(self, n, v):
        for f in reversed(self.frames):
            if n in f:
                if f[n] is UNINIT:
                    f[n] = v
                    return
                break
        self.frames[-1][n] = v

    def loop_attr(self, a):
        return self.loops[-1][a]

    # output
    def w(self, s):
        self.budget -= len(s) + 1
        if self.budget < 0:
            raise OverflowError("output too long")
        self.out.append(s)

    def show(self, x):
        esc = ESCAPERS[self.escaper]
        if x.k == "filt" and x.a[1] == "safe":
            v = x.a[0].ev(self)
            return self.display(v, esc_text)
        if x.k == "filt" and x.a[1] in ("escape", "e"):
            v = x.a[0].ev(self)
            if x.a[2]:
                esc = ESCAPERS[self.esc_names[x.a[2][0].a[1]]]
            return self.display(v, esc)
        return self.display(x.ev(self), esc)

    def display(self, v, esc):
        return esc(disp(v))

    def filter(self, name, v, args):
        if name in ("as_ref", "deref"):
            return v
        if name == "each":
            return list(v)
        if name == "join":
            return disp(args[0]).join(disp(e) for e in v)
        if name in ("tf", "bad"):
            self.trace.append(args[0])
            if name == "bad":
                raise RenderErr(f"custom{args[0]}")
        s = disp(v)
        if name == "safe":
            return s
        if name in ("escape", "e"):
            return ESCAPERS[self.esc_names[args[0]] if args else self.escaper](s)
        if name in ("upper", "uppercase"):
            return s.upper()
        if name in ("lower", "lowercase"):
            return s.lower()
        if name == "trim":
            return s.strip(UWS)
        if name == "wrap":
            return f"[{s}:{disp(args[0])}]"
        if name == "tag":
            return f"<i>{s}</i>"
        if name == "len":
            return len(s.encode())
        if name == "rev":
            return s[::-1]
        if name == "tf":
            return s
        if name == "wordcount":
            return uwords(s)
        if name == "linebreaksbr":
            return s.replace("\n", "<br/>")
        if name == "linebreaks":
            return "<p>" + s.replace("\n\n", "</p><p>").replace("\n", "<br/>") + "</p>"
        if name == "center":
            w = args[0]
            n = len(s)
            if n >= w:
                return s
            left = (w - n) // 2
            return " " * left + s + " " * (w - n - left)
        if name == "title":
            r, start = [], True
            for c in s:
                r.append(c if c in UWS else c.upper() if start else c.lower())
                start = c in UWS
            return "".join(r)
        if name == "indent":
            r = []
            for i, c in enumerate(s):
                r.append(c + " " * args[0] if c == "\n" and i + 1 < len(s) else c)
            return "".join(r)
        if name == "truncate":
            return truncate(s, args[0])
        if name == "capitalize":
            return s[:1].upper() + s[1:].lower()
        raise AssertionError(name)

    # control
    def run(self, nodes):
        for n in nodes:
            n.run(self)

    def block(self, name, gen):
        f, b = self.blocks[name][gen]
        self.stack.append((self.frames, self.file, self.loops))
        oc = self.cur_block
        self.frames, self.file, self.cur_block = [{}], f.merged(self.file), (name, gen)
        try:
            self.run(b.body)
        finally:
            self.cur_block = oc
            self.leave()

    def render(self, file, block=None):
        root, self.blocks = heritage(file)
        self.file = root
        try:
            if block is not None:
                self.block(block, 0)
            else:
                self.run(root.nodes)
        except RenderErr as e:
            return ("err:" + e.kind, None, self.trace)
        return ("ok", "".join(self.out), self.trace)
