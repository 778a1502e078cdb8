"""The syntax tree of a model, in the form that harness/rt prints those of the parser in (groups are left out)."""
from model import *


def xtree(x):
    k, a = x.k, x.a
    if k == "lit":
        return lit(a[0])
    if k == "var":
        return name(a[0])
    if k == "path":
        return ["path", *a[0]]
    if k == "group":
        return xtree(a[0])
    if k == "tuple":
        return ["tuple", *map(xtree, a[0])]
    if k == "array":
        return ["array", *map(xtree, a[0])]
    if k == "attr":
        return [".", xtree(a[0]), str(a[1])]
    if k in ("index", "slice"):
        return ["index", xtree(a[0]), xtree(a[1])]
    if k == "meth":
        return ["call", [".", xtree(a[0]), a[1]], *map(xtree, a[2])]
    if k == "fn":
        return ["call", name(a[0]), *map(xtree, a[1])]
    if k == "callx":
        return ["call", xtree(a[0]), *map(xtree, a[1])]
    if k == "try":
        return ["?", xtree(a[0])]
    if k == "macro":
        return ["macro", a[0].split("::"), a[1]]
    if k == "un":
        return ["un", a[0], xtree(a[1])]
    if k == "filt":
        return ["|", a[1], xtree(a[0]), *map(xtree, a[2])]
    if k == "range":
        return ["range", a[0], a[1] and xtree(a[1]), a[2] and xtree(a[2])]
    if k == "bin":
        return ["bin", a[0], xtree(a[1]), xtree(a[2])]
    raise AssertionError(k)


def name(n):
    if "::" in n or n[:1].isupper():
        return ["path", *pieces(n)]
    return ["var", n]


def pieces(n):
    return [x.strip() for x in n.split("::")]


def lit(s):
    if s in ("true", "false"):
        return ["bool", s]
    if s[0] == '"':
        return ["str", s[1:-1]]
    if s[0] == "'":
        return ["char", s[1:-1]]
    if s[0] == "-":
        return ["un", "-", lit(s[1:])]
    if s[0].isdigit():
        return ["num", s]
    # code printed verbatim
    raise LookupError(s)


def ptree(p):
    k, a = p.k, p.a
    pre = pieces(p.pre)[:-1]
    if k == "paren":
        return ptree(a[0])
    if k == "unit":
        return ["tuple", []]
    if k == "st":
        return ["struct", [*pre, a[0]], *[[f, ptree(q)] for f, q in a[1]]]
    if k in ("name", "wild"):
        return ["name", a[0] if a else "_"]
    if k == "lit":
        return ["num", a[0]] if a[0][0] == "-" else lit(a[0])
    if k == "none":
        return ["path", *pre, "None"]
    if k in ("some", "ok", "err", "enB"):
        return ["tuple", pre + {"some": ["Some"], "ok": ["Ok"], "err": ["Err"], "enB": ["En", "B"]}[k], ptree(a[0])]
    if k == "enA":
        return ["path", *pre, "En", "A"]
    if k == "enC":
        return ["struct", [*pre, "En", "C"], *[[f, ptree(q)] for f, q in a[0]]]
    if k == "tuple":
        return ["tuple", [], *map(ptree, a[0])]
    if k == "or":
        return ["or", *map(ptree, a[0])]
    raise AssertionError(k)


def target(t):
    if isinstance(t, str):
        return ["name", t]
    if isinstance(t, Pat):
        return ptree(t)
    if isinstance(t, tuple) and t[:1] == ("struct",):
        return ["struct", t[1].split("::"), *[[f, ["name", n]] for f, n in t[2]]]
    return ["tuple", [], *[["name", n] for n in t]]


def ws2(*w):
    return "".join(s or "." for s in w)


def text(s):
    l = s[:len(s) - len(s.lstrip(WS))]
    rest = s[len(l):]
    v = rest.rstrip(WS)
    return [l, v, rest[len(v):]]


def nodes(ns, trailing=""):
    out, run = [], ""

    def flush():
        nonlocal run
        if run:
            out.append(["lit", *text(run)])
        run = ""
    for n in ns:
        if isinstance(n, Lit):
            run += n.text
        else:
            flush()
            out.append(node(n))
    run += trailing
    flush()
    return out


def node(n):
    t = type(n).__name__
    if t == "Raw":
        return ["raw", ws2(*n.ws1), *text(n.lit.text), ws2(*n.ws2)]
    if t == "Comment":
        return ["comment", ws2(*n.ws), n.text.strip(WS)]
    if t == "Expr":
        return ["expr", ws2(*n.ws), xtree(n.x)]
    if t == "Let":
        return ["let", ws2(*n.ws), target(n.target), n.x and xtree(n.x)]
    if t == "If":
        def cond(c):
            if c is None:
                return None
            if isinstance(c, tuple):
                return [ptree(c[1]), xtree(c[2])]
            return [None, xtree(c)]
        return ["if", *[[ws2(*w), cond(c), nodes(b)] for w, c, b in n.branches], ws2(*n.end)]
    if t == "Match":
        return ["match", ws2(*n.ws1), xtree(n.x), *[[ws2(*w), ["name", "_"] if p is None else ptree(p), nodes(b)] for w, p, b in n.arms], ws2(*n.ws2)]
    if t == "For":
        els = n.els or []
        w2, w3 = (n.ws2, n.ws3) if n.els is not None else ((n.ws2[0], ""), ("", n.ws3[1]))
        return ["for", ws2(*n.ws1), target(n.target), xtree(n.it), n.cond and xtree(n.cond), nodes(n.body), ws2(*w2), nodes(els), ws2(*w3)]
    if t == "Break":
        return ["break", ws2(*n.ws)]
    if t == "Continue":
        return ["continue", ws2(*n.ws)]
    if t == "Macro":
        return ["defmacro", ws2(*n.ws1), n.name, list(n.params), nodes(n.body), ws2(*n.ws2)]
    if t == "Call":
        return ["callm", ws2(*n.ws), n.scope or None, n.name, *[(["named", a, xtree(x)] if a else xtree(x)) for a, x in n.args]]
    if t == "Super":
        return ["callm", ws2(*n.ws), None, "super"]
    if t == "Include":
        return ["include", ws2(*n.ws), n.path]
    if t == "Import":
        return ["import", ws2(*n.ws), n.path, n.scope]
    if t == "Extends":
        return ["extends", n.path]
    if t == "Block":
        return ["block", ws2(*n.ws1), n.name, nodes(n.body), ws2(*n.ws2)]
    if t == "FilterBlock":
        f = ["gen"]
        for nm, args in n.filters:
            f = ["|", nm, f, *map(xtree, args)]
        return ["filter", ws2(*n.ws1), f, nodes(n.body), ws2(*n.ws2)]
    raise AssertionError(t)
