"""Corpora for the monitors of the parser: sources of models with their trees, spans of their tags and other spellings."""
import json
from e1 import *
from syntaxes import *
import tree as T


def entries(f, syn, sps):
    """The file, printed once for each of `sps`"""
    res = []
    try:
        t = json.dumps(T.nodes(f.nodes, f.trailing), ensure_ascii=False)
    except LookupError:
        t = ""
    for sp in sps:
        E = Emit(syn and {SHORT[k]: v for k, v in syn.items()}, sp)
        E.nodes(f.nodes)
        res.append({"text": E.source() + f.trailing, "tree": t, "tags": E.spans})
        if syn:
            res[-1]["syn"] = [syn[k] for k in KEYS]
    res[0]["other"] = res[-1]["text"]
    return res


def any_expr(rng, d, top=True):
    """An expression of any shape, which need not mean anything"""
    def sub(top=False):
        return any_expr(rng, d - 1, top)

    def subs(*ns):
        return [sub(True) for _ in range(rng.choice(ns))]
    name = lambda: rng.choice(["a", "x1", "_y", "self", "loop", "isa", "or_", "lets", "né"])
    if d <= 0 or rng.random() < .1:
        r = rng.randrange(8)
        if r < 3:
            return X("var", name())
        if r == 3:
            return X("path", [*rng.choice([["A"], ["a", "b"], ["", "std", "C"], ["A", "b", "c"], ["Self", "D"]])])
        return X("lit", rng.choice(["0", "12", "3u8", "0xfF", "1_0", "2.5", "1e3", "true", "false", '"s"', '"\\"%}{{"', '""', "'c'", "'\\''", '"é\\\\"', "7.0f32"]))
    k = rng.choice(["bin", "bin", "bin", "un", "filt", "filt", "attr", "index", "meth", "fn", "callx", "try", "group", "tuple", "array", "range" if top else "bin", "macro"])
    if k == "bin":
        return X("bin", rng.choice(sorted(BINOPS)), sub(), sub())
    if k == "un":
        return X("un", rng.choice("!-"), sub())
    if k == "filt":
        return X("filt", sub(), rng.choice(["f", "upper", "join", "a_1"]), subs(0, 0, 1, 2))
    if k in ("attr", "index", "meth", "callx", "try"):
        a = sub()
        if a.k == "lit":
            a = X("group", a)
        if k == "attr":
            # (`a.0.1` is parsed like one field `0.1`, which yields the same code)
            return X("attr", a, rng.choice(["x", "y_1", "type"] + ["0", "1"] * (a.k != "attr")))
        if k == "index":
            return X("index", a, sub(True))
        if k == "meth":
            return X("meth", a, rng.choice(["m", "iter", "n_2"]), subs(0, 1, 2))
        if k == "callx" and a.k != "callx" and rng.random() < .5:
            a = X("group", a)
        return X("try", a) if k == "try" else X("callx", a, subs(0, 1, 2))
    if k == "fn":
        return X("fn", rng.choice(["f", "a::b", "G::h", "::x::y"]), subs(0, 1, 2, 3))
    if k == "group":
        return X("group", sub(True))
    if k in ("tuple", "array"):
        return X(k, subs(0, 1, 2, 3))
    if k == "macro":
        return X("macro", rng.choice(["m", "a::m"]), rng.choice(["", "x", "(a, [b])", '"%}", c']))
    l, r = rng.choice([(1, 1), (1, 1), (1, 0), (0, 1), (0, 0)])
    op = rng.choice(["..", "..="])
    return X("range", op, sub() if l else None, sub() if r else None)


def scramble(ns, rng, some):
    """Puts expressions of any shape in the place of those of the nodes"""
    def x(old, **k):
        return any_expr(rng, rng.choice([1, 2, 3, 3, 4]), **k) if old is not None and rng.random() < some else old
    def emptied(b):
        if b and rng.random() < some * .15:
            b.clear()
        return b
    for n in ns:
        t = type(n).__name__
        # nothing between the tags
        for b in [b for *_, b in n.branches] if t == "If" else [n.body, n.els] if t == "For" else [n.body] if t in ("Macro", "Block", "FilterBlock") else [b for *_, b in n.arms] if t == "Match" else []:
            emptied(b)
        if t == "Expr" or t == "Let":
            n.x = x(n.x)
        elif t == "Match":
            n.x = x(n.x)
            for _, _, b in n.arms:
                scramble(b, rng, some)
        elif t == "If":
            n.branches = [(w, c if c is None else (*c[:2], x(c[2])) if isinstance(c, tuple) else x(c), b) for w, c, b in n.branches]
            for _, _, b in n.branches:
                scramble(b, rng, some)
        elif t == "For":
            # (`a.. if b` has a range that ends with the name `if`)
            n.it, n.cond = x(n.it, top=n.cond is None), x(n.cond)
            scramble(n.body, rng, some)
            scramble(n.els or [], rng, some)
        elif t in ("Macro", "Block", "FilterBlock"):
            if t == "FilterBlock":
                n.filters = [(f, [x(a) for a in args]) for f, args in n.filters]
            scramble(n.body, rng, some)
        elif t == "Call":
            n.args = [(a, x(v)) for a, v in n.args]


def generate(ctx, n, tag="corpus", trees=False):
    """`n` or more templates of all kinds, a part of them with delimiters of their own"""
    out = []
    i = 0
    while len(out) < n:
        rng = ctx.rng(f"{tag}{i}")
        i += 1
        s = rand_syntax(rng) if rng.random() < .35 else None
        # (code of Rust macros and verbatim code is opaque)
        g = SynGen(rng, f"c{i}", trace=rng.choice([0, .1]), ws=rng.choice([0, .3]), esc=.05, depth=rng.choice([1, 2, 3]), edepth=rng.choice([1, 2, 3, 4]), max_nodes=40, width=4,
                   space=rng.choice([0, .3, .8]), macros=2, imports=1, includes=True, floats=.4, lit=rng.choice(["plain", "ws"]),
                   nodes={"lit": 8, "expr": 8, "let": 2, "if": 2, "match": 1.3, "for": 2, "decl": .3, "filter": .7, "raw": 1, "comment": 1.5, "call": 1, "include": 1, "break": .3})
        g.set_syntax(s or DEFAULT)
        try:
            if rng.random() < .3:
                g.hierarchy(rng.choice([1, 2, 3]))
            else:
                pre, call = g.preamble(g.cur_dir)
                g.callable = call
                g.new_file(pre + g.body(g.prof["depth"], 2, 6, scope=False), g.cur_dir)
            tight = lambda d="": d
            some = rng.choice([0, 0, 0, .3, 1])
            for f in g.files:
                scramble(f.nodes, rng, some)
                out += entries(f, s, [g.sp, tight] if rng.random() < .7 else [g.sp, g.sp])
        except OverflowError:
            continue
    return out


def corpus_file(ctx, n, tag="corpus"):
    items = generate(ctx, n, tag)
    p = os.path.join(ctx.work, tag + ".jsonl")
    write(p, "".join(json.dumps(e, ensure_ascii=False) + "\n" for e in items))
    ctx.extra["corpus"] = len(items)
    ctx.extra["corpus_trees"] = sum(bool(e["tree"]) for e in items)
    return p
