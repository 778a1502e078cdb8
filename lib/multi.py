"""Generator of template sets: inheritance, includes, imports."""
import copy
from gen import *


MACRO_NAMES = ["mac1", "mac2", "mac3", "show", "x"]
SCOPE_NAMES = ["lib", "ns", "x", "mac1"]


class Multi(Gen):
    """`case` prefixes all file names, so that every name is unique among all cases of a shard."""

    def __init__(self, rng, case, ext="html", **prof):
        super().__init__(rng, **prof)
        self.case, self.ext = case, ext
        self.files = []          # all Files, in order of creation
        self.n = itertools.count(1)
        self.dirs = [f"{case}"] + ([f"{case}/sub", f"{case}/sub/deep"] if rng.random() < .5 else [])
        self.cur_dir = self.dirs[0]
        self.block_names = itertools.count(1)
        self.supers = False
        self.include_depth = 0
        self.no_include = False
        self.decoys = {}
        self.deep = rng.random() < .05
        self.roots = prof.get("roots") or ["templates"]
        self.cur_root = self.roots[0]

    def new_file(self, nodes, dirname=None, kind="f", root=None):
        nodes = merge_lits(nodes)
        d = dirname if dirname is not None else self.rng.choice(self.dirs)
        if self.exts:
            ext = self.rng.choice(self.exts)
        elif self.prof.get("varied"):
            # The template that is derived must be HTML, but the others can be anything.
            ext = self.rng.choice(["html", "htm", "xml", "svg"] + ["txt", "none", "j2", "html.j2", "md", ""] * (kind in ("inc", "lib", "base")))
        else:
            ext = self.ext
        path = f"{d}/{self.case}_{kind}{next(self.n)}" + ("." + ext if ext else "")
        if self.prof.get("alike"):
            # the same file name in several directories
            p = f"{d}/{self.case}_f" + ("." + ext if ext else "")
            if all(x.path != p for x in self.files):
                path = p
        f = File(path, nodes, self.trailing(nodes))
        f.root = root or self.cur_root
        self.files.append(f)
        return f

    def ref(self, f, dirname=None):
        """How a file in `dirname` may call the file."""
        here = dirname if dirname is not None else self.cur_dir
        d, base = f.path.rsplit("/", 1)
        opts = [f.path]
        if f.root != self.cur_root:
            pass
        elif d == here:
            opts += [base] * 2 + ["./" + base]
        elif d.startswith(here + "/"):
            opts += [d[len(here) + 1:] + "/" + base] * 2
        elif here.startswith(d + "/"):
            opts += ["../" * (here[len(d):].count("/")) + base] * 2
        p = self.rng.choice(opts)
        if p == base and self.rng.random() < .3:
            # The same name in the root directory of all templates must not win.
            self.decoys[self.rng.choice(self.roots), base] = "DECOY"
        if p == f.path:
            # Neither must files in directories that are searched later.
            for r in self.roots[self.roots.index(f.root) + 1:]:
                if self.rng.random() < .5:
                    self.decoys[r, p] = "DECOY {{ unknown"
        return p

    # -- fresh contexts --------------------------------------------------------------------

    def isolated(self, fn, scopes=None, callable_=None, dirname=None, **kw):
        keys = ("scopes", "loops", "in_macro", "in_filter", "can_break", "callable", "cur_dir", "supers", "no_include")
        saved = {k: getattr(self, k) for k in keys}
        self.scopes = scopes if scopes is not None else [{}]
        self.loops, self.in_macro, self.in_filter, self.can_break = 0, False, 0, False
        if callable_ is not None:
            self.callable = list(callable_)
        if dirname is not None:
            self.cur_dir = dirname
        self.supers = False
        for k, v in kw.items():
            setattr(self, k, v)
        try:
            return fn()
        finally:
            for k, v in saved.items():
                setattr(self, k, v)

    def macros_nodes(self, n, d=2, prefix="mac"):
        """Definitions of macros; earlier ones are called by later ones. Returns (nodes, callable)."""
        nodes, call = [], []
        # different files may use the same names
        names = self.rng.sample(MACRO_NAMES, n) if n <= len(MACRO_NAMES) and self.chance(.7) else [f"{prefix}{next(self.uniq)}" for _ in range(n)]
        for i in range(n):
            m = self.isolated(lambda: self.macro(names[i], d, call), no_include=True)
            call = call + [(None, m)]
            nodes.append(m)
            if self.chance(.5):
                nodes.append(Lit(self.littext()))
        return nodes, call

    def lib(self):
        """An imported file: macros, and text that is never shown."""
        d = self.rng.choice(self.dirs)
        nodes = [Lit(self.littext())] if self.chance(.5) else []
        m, call = self.isolated(lambda: self.macros_nodes(self.rng.randint(1, 3)), dirname=d)
        nodes += m
        if self.chance(.3):
            nodes.append(Expr(self.ws(), self.isolated(lambda: self.any_(1))))
        f = self.new_file(nodes, d, "lib")
        return f, call

    def imports(self, n, dirname=None):
        nodes, call = [], []
        names = self.rng.sample(SCOPE_NAMES, min(n, len(SCOPE_NAMES)))
        for i in range(n):
            f, c = self.in_root(self.lib)
            scope = names[i] if i < len(names) and self.chance(.6) else self.rng.choice(["lib", "ns", "m"]) + str(next(self.uniq))
            nodes.append(Import(self.ws(), self.ref(f, dirname), scope, f))
            call += [(scope, m) for _, m in c]
            if self.chance(.4):
                nodes.append(Lit(self.littext()))
        return nodes, call

    def preamble(self, dirname=None, n_macros=None, n_imports=None):
        p = self.prof
        n1, c1 = self.imports(self.rng.randint(0, p.get("imports", 0)) if n_imports is None else n_imports, dirname)
        n2, c2 = self.isolated(lambda: self.macros_nodes(self.rng.randint(0, p.get("macros", 0)) if n_macros is None else n_macros), dirname=dirname)
        parts = [n1, n2]
        if self.chance(.3):
            parts.reverse()
        return parts[0] + parts[1], c1 + c2

    # -- includes --------------------------------------------------------------------------

    def n_include(self, d):
        if self.in_macro or self.no_include or self.include_depth >= (7 if self.deep else 3):
            return self.n_expr(d)
        here, here_root = self.cur_dir, self.cur_root
        dirname = self.rng.choice(self.dirs)
        self.include_depth += 1
        self.cur_root = self.rng.choice(self.roots)
        try:
            visible = [dict(sc) for sc in self.scopes]
            if self.chance(self.prof.get("include_extends", 0)):
                f = self.isolated(lambda: self.hierarchy(self.rng.randint(1, 2), small=True, visible=visible), callable_=[])
            else:
                pre, call = ([], [])
                if self.chance(.4):
                    pre, call = self.preamble(dirname)
                own = {m.name for s, m in call if s is None}
                scopes = {s for s, m in call if s}
                outer = [(s, m) for s, m in self.callable if s not in scopes]
                if own & {m.name for s, m in outer if s is None}:
                    # (macros of the including template call the included template's macros if they have the same names)
                    outer = [(s, m) for s, m in outer if s is not None]
                inf = self.in_filter
                outer_defined = getattr(self, "defined", None)
                self.defined = []
                outer_file = getattr(self, "file_callable", None) or []
                # (of blocks in the included file)
                self.file_callable = [(s, m) for s, m in outer_file if (s, m) in outer] + call
                body = self.isolated(lambda: self.body(min(d, 2), 1, 4), scopes=visible, callable_=outer + call, dirname=dirname, in_filter=inf, loops=self.loops)
                self.defined, self.file_callable = outer_defined, outer_file
                nodes = pre + body if self.chance(.7) else body + pre
                f = self.new_file(nodes, dirname, "inc")
        finally:
            self.include_depth -= 1
            self.cur_root = here_root
        return [Include(self.ws(), self.ref(f, here), f)]

    # -- inheritance -----------------------------------------------------------------------

    def n_blockdef(self, d):
        """A block in the skeleton (or within another block)"""
        if self.in_macro or not self.prof.get("blocks") or self.include_depth and not self.allow_blocks:
            return self.n_lit(d)
        name = self.rng.choice(["content", "title", "b", "main", "x", "type", "a"]) + str(next(self.block_names))
        inf = self.in_filter
        body = self.isolated(lambda: self.body(d - 1), callable_=self.file_callable, in_filter=inf, supers=False, in_block=True)
        self.defined.append(name)
        return [Block(self.ws(), name, body, self.ws(), self.chance(.3))]

    allow_blocks = True
    deep = False
    exts = None
    in_block = False

    def n_super(self, d):
        if not self.supers or self.in_macro:
            return self.n_lit(d)
        return [Super(self.ws())]

    def hierarchy(self, levels, small=False, visible=None):
        """A chain of templates; returns the most derived one. levels = 1: no extends"""
        rng = self.rng
        if not small and levels > 1:
            levels = self.many(levels, levels, 7)
        # tall: one block that all templates of the chain override, and that they all show
        tall = not small and levels > 3 and self.chance(.5)
        saved = getattr(self, "defined", None), getattr(self, "file_callable", None), self.allow_blocks
        self.defined, self.allow_blocks = [], True
        d0 = rng.choice(self.dirs)
        root = self.cur_root
        self.cur_root = rng.choice(self.roots)
        pre, call = self.preamble(d0)
        self.file_callable = call
        w = self.prof["nodes"]
        self.prof["nodes"] = {**w, "blockdef": self.prof.get("block_weight", 4)}
        self.prof["blocks"] = True
        body = self.isolated(lambda: self.body(2 if small else self.prof["depth"], 2, self.prof["width"] + 2, scope=False), scopes=visible, callable_=call, dirname=d0, no_include=small)
        if not self.defined:
            self.prof["nodes"] = {**w, "blockdef": 0}
            body += self.isolated(lambda: self.n_blockdef(2), callable_=call, dirname=d0)
        f = self.new_file(pre + body, d0, "base" if levels > 1 or small else "f")
        fixed_blocks = list(self.defined)
        tall = tall and bool(fixed_blocks)
        self.all_blocks = list(self.defined)
        self.prof["blocks"] = self.prof.get("nested_new", False)
        for lv in range(1, levels):
            d = rng.choice(self.dirs)
            self.cur_root = rng.choice(self.roots)
            pre, call = self.preamble(d)
            self.file_callable = call
            nodes = []
            if self.chance(.3):
                nodes.append(Lit(rng.choice([" ", "\n", "stray "])))
            nodes.append(Extends(self.ref(f, d), f))
            if self.chance(.6):
                nodes.append(Lit("\n"))
            nodes += pre
            over = [b for b in self.all_blocks if self.chance(.6 if not tall else .3)]
            if tall:
                over = sorted({*over, fixed_blocks[0]}, key=self.all_blocks.index)
            rng.shuffle(over)
            parent_blocks = heritage(f)[1]
            self.defined = []
            for b in over:
                self.prof["nodes"] = {**w, "super": self.prof.get("super_weight", 3), "blockdef": self.prof.get("new_weight", 0)}
                body = self.isolated(lambda: self.body(2 if small else self.prof["depth"] - 1, 0, 4), callable_=call, dirname=d,
                                     supers=b in parent_blocks, no_include=small)
                ws = self.ws(), self.ws()
                if tall and b == fixed_blocks[0] and b in parent_blocks and not any(isinstance(n, Super) for n in body):
                    body.insert(rng.randint(0, len(body)), Super(self.ws()))
                if not tall and lv > 1 and self.chance(.15):
                    # just like the definition that it overrides
                    again = [n for n in f.nodes if isinstance(n, Block) and n.name == b]
                    if again and self.same_anywhere(again[0].body):
                        body, ws = copy.deepcopy(again[0].body), (again[0].ws1, again[0].ws2)
                        self.features.add("equal_override")
                nodes.append(Block(ws[0], b, body, ws[1], self.chance(.3)))
                if self.chance(.5):
                    nodes.append(Lit(self.littext()))
                if self.chance(.15):
                    nodes.append(Expr(self.ws(), self.any_(1)))
            self.all_blocks += self.defined
            f = self.new_file(nodes, d, "child")
        self.prof["nodes"] = w
        self.cur_root = root
        self.defined, self.file_callable, self.allow_blocks = saved
        return f

    def same_anywhere(self, nodes):
        """The nodes mean the same in other files."""
        return not any(isinstance(n, (Include, Call, Block)) for ns, _ in lists(nodes) for n in ns)

    def place_of(self, root, path):
        return path if root == "templates" else f"../{root}/{path}"

    def in_root(self, fn):
        """Runs `fn` as if all new files were in some other directory"""
        old = self.cur_root
        self.cur_root = self.rng.choice(self.roots)
        try:
            return fn()
        finally:
            self.cur_root = old

    def texts(self, syn=None, whitespace="preserve"):
        """{path: source} of all files; sets `ambiguous` if some white space has no specified outcome"""
        res, self.ambiguous = {}, False
        for f in self.files:
            E = Emit(syn, self.sp)
            E.nodes(f.nodes)
            E.finish(whitespace, f.trailing)
            self.ambiguous |= E.ambiguous
            res[self.place_of(f.root, f.path)] = E.source() + f.trailing
        for (root, p), text in self.decoys.items():
            res.setdefault(self.place_of(root, p), text)
        return res


def fragments(f):
    """Names of the blocks that are rendered regardless of conditions and loops"""
    root, blocks = heritage(f)
    res = []

    def walk(nodes):
        for n in nodes:
            if isinstance(n, Block):
                res.append(n.name)
                walk(blocks[n.name][0][1].body)
    walk(root.nodes)
    return res


def lists(nodes, macro=False):
    """All lists of nodes within `nodes`, and whether they are part of a macro"""
    yield nodes, macro
    for n in nodes:
        subs = []
        if isinstance(n, If):
            subs = [b[2] for b in n.branches]
        elif isinstance(n, Match):
            subs = [b[2] for b in n.arms]
        elif isinstance(n, For):
            subs = [n.body] + ([n.els] if n.els else [])
        elif isinstance(n, (FilterBlock, Block, Macro)):
            subs = [n.body]
        for s in subs:
            yield from lists(s, macro or isinstance(n, Macro))


def used(f, seen=None):
    """All files that `f` is made of"""
    seen = {} if seen is None else seen
    if id(f) not in seen:
        seen[id(f)] = f
        for ns, _ in lists(f.nodes):
            for n in ns:
                if isinstance(n, (Include, Import, Extends)):
                    used(n.file, seen)
    return list(seen.values())
