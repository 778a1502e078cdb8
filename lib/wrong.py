"""Valid sets of templates with one mistake that must be rejected."""
from multi import *
from e1 import *
from reject import reject_cases


SEVEN = X("lit", "7", 7)


def shown(f):
    """Lists of nodes that are part of the page of `f`, which extends nothing: whatever is no macro, in it and in what it includes"""
    for ns, macro in lists(f.nodes):
        if not macro:
            yield f, ns
            for n in ns:
                if isinstance(n, Include) and n.file.extends is None:
                    yield from shown(n.file)


def wrong_call(rng, g, f):
    """Spoils a call that is expanded; (what is wrong, what the error says), or None"""
    calls = [(g_, ns, n) for g_, ns in shown(f) for n in ns if isinstance(n, Call)]
    if not calls:
        return None
    _, ns, c = rng.choice(calls)
    x = SEVEN
    pos = [a for a in c.args if not a[0]]
    named = [a for a in c.args if a[0]]
    how = rng.choice(["few", "many", "unknown", "unnamed", "twice", "both", "order", "macro", "scope", "noscope"])
    old = c.args
    count = r"expected \d+ argument"
    if how == "few" and c.args:
        c.args = list(c.args)
        del c.args[rng.randrange(len(c.args))]
        return "too few arguments", count
    if how == "many":
        c.args = list(c.args)
        c.args.insert(rng.randint(0, len(pos)), (None, x))
        return "too many arguments", count
    if how == "unknown" and named:
        i = c.args.index(rng.choice(named))
        c.args = old[:i] + [("nope", old[i][1])] + old[i + 1:]
        return "unknown name of an argument", "nope|argument"
    if how == "unnamed" and c.args:
        # the last positional one becomes a named one that the macro does not know
        i = len(pos) - 1
        if i < 0:
            return None
        c.args = old[:i] + [("nope", old[i][1])] + old[i + 1:]
        return "unknown name of an argument", "nope|argument"
    if how == "twice" and len(named) > 1:
        i, j = rng.sample([c.args.index(a) for a in named], 2)
        c.args = list(c.args)
        c.args[i] = (c.args[j][0], c.args[i][1])
        return "an argument given twice", None
    if how == "both" and named and pos:
        i = c.args.index(rng.choice(named))
        m = [m for s, m in g.callable if m.name == c.name and s == c.scope]
        if len(m) != 1:
            return None
        c.args = list(c.args)
        c.args[i] = (m[0].params[rng.randrange(len(pos))], c.args[i][1])
        return "an argument given by position and by name", None
    if how == "order" and named:
        c.args = named[:1] + pos + [(None, x)] * (not pos) + named[1:]
        return "a positional argument after a named one", None
    if how == "macro":
        c.name = rng.choice([c.name + "z", "nope", c.name.upper() + "_"])
        return "an unknown macro", "not found"
    if how == "scope":
        c.scope = "zz" if c.scope is None else rng.choice(["zz", c.scope + "z"])
        return "an unknown scope", "scope"
    if how == "noscope" and c.scope:
        c.name, c.scope = c.name + "_" + c.scope, None
        return "an unknown macro", "not found"
    return None


def wrong_path(rng, g, f):
    """Spoils a path that is looked up"""
    fs = used(f)
    refs = [n for h in fs for ns, _ in lists(h.nodes) for n in ns if isinstance(n, (Include, Import, Extends))]
    if not refs:
        return None
    n = rng.choice(refs)
    d, _, base = n.path.rpartition("/")
    known = {x.path for x in g.files} | {p for _, p in g.decoys}
    dirs = {"/".join(p.split("/")[:k]) for p in known for k in range(1, p.count("/") + 1)}
    p = rng.choice([n.path + "x", n.path[:-1], d + "/nope/" + base, "nope/" + n.path, (d + "/" if d else "") + "nope.html", (d + "/" if d else "") + base.upper(), n.path.replace(".", "_"), "../../../../../nope/" + base, n.path + "/" + base,
                    sorted(dirs)[0] + "/nope", "nope " + base, "no\u0308pe.html"])
    n.path = p
    return "a path that leads nowhere", re.escape(json.dumps(p)[1:-1] if p.isascii() else p) + "|not found"


def wrong_block(rng, g, f):
    """Spoils a chain of templates; f is the most derived"""
    fs = [f]
    while fs[-1].extends is not None:
        fs.append(fs[-1].extends)
    root = fs[-1]
    how = rng.choice(["super in root", "super in root", "super outside", "super outside", "extends inside", "two", "macro inside", "import inside", "unknown"])
    inner = [ns for h in fs for ns, m in lists(h.nodes) if ns is not h.nodes and not m]
    tops = [ns for ns, m in lists(root.nodes) if not m]
    in_blocks = {id(ns) for n, _ in lists(root.nodes) for b in n if isinstance(b, Block) for ns, _ in lists(b.body)}
    sup = Super(("", ""))
    if how == "super in root":
        # the base on its own: no block has any ancestor
        cands = [ns for ns in tops if id(ns) in in_blocks]
        if not cands:
            return None
        ns = rng.choice(cands)
        ns.insert(rng.randint(0, len(ns)), sup)
        return "super() without an ancestor", None, root
    if how == "super outside":
        cands = [ns for ns in tops if id(ns) not in in_blocks]
        ns = rng.choice(cands)
        ns.insert(rng.randint(0, len(ns)), sup)
        return "super() outside of a block", "super"
    if how == "unknown":
        return "an unknown block", "block", f, rng.choice(["nope", "b", "", "Content", (list(blocks_of(fs)) or ["x"])[0] + "x"])
    if how == "two" and len(fs) > 1:
        h = rng.choice(fs[:-1])
        i = [i for i, n in enumerate(h.nodes) if isinstance(n, Extends)][0]
        h.nodes.insert(rng.randint(i + 1, len(h.nodes)), Extends(root.path, root))
        return "two extends", "extend|cyclic"
    # (lists that are certainly rendered)
    cands = [ns for ns in tops if ns is not root.nodes and id(ns) not in in_blocks]
    if not cands:
        return None
    ns = rng.choice(cands)
    at = rng.randint(0, len(ns))
    if how == "extends inside":
        other = rng.choice(fs)
        ns.insert(at, Extends(other.path, other))
        return "extends within another tag", None
    if how == "macro inside":
        ns.insert(at, Macro(("", ""), "inner", [], [], ("", "")))
        return "a macro within another tag", "macro"
    if how == "import inside":
        ns.insert(at, Import(("", ""), root.path, "inner", root))
        return "an import within another tag", "import"
    return None


def blocks_of(fs):
    return {n.name for f in fs for ns, _ in lists(f.nodes) for n in ns if isinstance(n, Block)}


def wrong_cases(ctx, n, spoil, make, insts, configs=None):
    """`n` programs made by `make(rng, name)` -> (generator, file, further attributes), each spoilt by `spoil`; all of them must be rejected"""
    cases, tries = [], 0
    while len(cases) < n:
        tries += 1
        if tries > 30 * n + 100:
            raise CheckError("cannot generate mistakes")
        name = f"w{len(cases)}"
        rng = ctx.rng(f"wrong{tries}")
        try:
            g, f, attrs = make(rng, name)
            g.texts()
            w = spoil(rng, g, f)
            if w is None:
                continue
            for h in g.files:
                h.nodes[:] = merge_lits(h.nodes)
            files = g.texts()
        except OverflowError:
            continue
        what, message = w[:2]
        root = w[2] if len(w) > 2 else f
        if len(w) > 3:
            attrs += f', block = "{w[3]}"'
        info = f"{what}\n" + "\n".join(f"--- {p}\n{t}" for p, t in files.items()) + f"\n{root.path}{attrs}"
        c = Case(name, files, module_rs([struct_rs("T", f'path = "{root.path}"' + attrs)], "").replace("pub fn run() {\n}\n", ""), {}, info)
        c.message = message
        cases.append(c)
        ctx.add("mistake_" + what.replace(" ", "_"))
    reject_cases(ctx, cases, data_rs(insts), configs, what="is not rejected")
