import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *
import places

DIRS = {"two.toml": ["templates", "extra"], "three.toml": ["extra", "more/tpl", "templates"], "one.toml": ["more/tpl"]}
CONFIGS = {k: "[general]\ndirs = " + json.dumps(v) + "\n" for k, v in DIRS.items()}
CONFIGS["askama.toml"] = CONFIGS["two.toml"]
DIRS["askama.toml"] = DIRS["two.toml"]


class Project:
    """A case whose files are edited: its generator, its most derived template, and what it is expected to render"""

    def __init__(self, ctx, name, rng, insts):
        self.name, self.insts = name, insts
        cfg = rng.choice(sorted(DIRS))
        g = Multi(rng, name, alike=rng.random() < .3, varied=rng.random() < .5, trace=0, ws=rng.choice([0, .2]), esc=.05, depth=rng.choice([1, 2, 3]), edepth=1, max_nodes=25, width=4, space=.1, macros=2, imports=2,
                  includes=True, include_extends=.25, roots=DIRS[cfg], lit="plain",
                  nodes={"lit": 4, "expr": 2, "let": 1, "if": 1.5, "match": 1, "for": 1.5, "filter": 1, "raw": .2, "comment": .2, "call": 1, "include": 4})
        g.cur_root = rng.choice(g.roots)
        if rng.random() < .5:
            f = g.hierarchy(rng.choice([1, 2, 3]))
        else:
            pre, call = g.preamble(g.cur_dir)
            g.callable = call
            f = g.new_file(pre + g.body(g.prof["depth"], 2, 6, scope=False), g.cur_dir)
        # files without anything in them: a base, a library or the template itself
        r = rng.random()
        if r < .08:
            e = g.new_file([], f.path.rsplit("/", 1)[0], "base", root=f.root)
            f = g.new_file([Extends(e.path, e), Lit(" stray ")], root=f.root)
        elif r < .12:
            f = g.new_file([], root=f.root)
        elif r < .22:
            e = g.new_file([], f.path.rsplit("/", 1)[0], "lib", root=f.root)
            to = rng.choice(used(f))
            to.nodes.insert(1 if to.nodes and isinstance(to.nodes[0], Extends) else 0, Import(("", ""), e.path, "nothing", e))
            to.imports["nothing"] = e
        self.g, self.root, self.rng = g, f, rng
        self.names = sorted({p for p in (x.path for x in g.files)})
        self.attrs = "" if cfg == "askama.toml" else f', config = "{cfg}"'
        # the same tree from a template in the source, which calls the file by its full path
        self.kind = rng.choice(["path", "path", "extends", "include"])
        if self.kind == "extends":
            self.source = f'source = "{{% extends \\"{f.path}\\" %}}", ext = "html"'
        elif self.kind == "include":
            self.source = f'source = "{{% include \\"{f.path}\\" %}}", ext = "html"'
        else:
            self.source = f'path = "{f.path}"'
        self.frag = rng.choice(fragments(f) or [None]) if rng.random() < .4 and self.kind == "path" else None
        self.files = g.texts()
        if g.ambiguous:
            raise OverflowError
        if f.path in {p for r, p in g.decoys}:
            raise OverflowError
        self.links = {}
        for p in sorted(self.files):
            if rng.random() < .08:
                self.links[p] = f"../store/{name}/" + p.replace("/", "_").replace("..", "_")
        self.expect = self.interpret()
        self.counter = self.retargets = 0

    def interpret(self):
        exp = {}
        for j, d in enumerate(self.insts):
            st, text, _ = Interp(d, "html").render(self.root, self.frag)
            exp[j, "render"] = (st, text, None)
        return exp

    def deps(self, d):
        """Real paths of the files the program must depend on"""
        t = os.path.join(d, "templates")
        return {os.path.realpath(os.path.join(t, self.g.place_of(f.root, f.path))) for f in used(self.root)}

    def case(self):
        attrs = self.source + self.attrs + (f', block = "{self.frag}"' if self.frag else "")
        rs = module_rs([struct_rs("T", attrs)], run_rs(self.name, "T", len(self.insts)))
        info = "\n".join(f"--- {p}{' -> ' + self.links[p] if p in self.links else ''}\n{t}" for p, t in self.files.items()) + "\n" + attrs
        return Case(self.name, self.files, rs, self.expect, info)

    def put(self, d, p):
        """Writes a file of the project; returns its real path"""
        at = os.path.join(d, "templates", p)
        if p in self.links:
            real = os.path.join(d, "templates", self.links[p])
            if os.path.islink(at) and self.rng.random() < .5:
                # the link is pointed to another file
                self.retargets += 1
                real = f"{real.rsplit('@')[0]}@{self.retargets}"
                self.links[p] = os.path.relpath(real, os.path.join(d, "templates"))
                os.unlink(at)
            write(real, self.files[p])
            if not os.path.islink(at):
                os.makedirs(os.path.dirname(at), exist_ok=True)
                if os.path.exists(at):
                    os.unlink(at)
                os.symlink(real, at)
        else:
            write(at, self.files[p])
        return os.path.realpath(at)

    def edit(self, d):
        """Changes one or two files, mostly ones that are used; returns the real paths of those that were written and whether the page changed"""
        touched = set()
        before = self.expect
        for _ in range(self.rng.choice([1, 1, 2])):
            self.counter += 1
            live = used(self.root)
            f = self.rng.choice(live if self.rng.random() < .9 else self.g.files)
            how = self.rng.choice(["text", "text", "text", "add", "drop"] + ["clear"] * (self.rng.random() < .15))
            undo = None
            ls = [(ns, m) for ns, m in lists(f.nodes) if ns]
            if not f.nodes:
                f.nodes.append(Lit(f"Q{self.counter}q"))
                undo = lambda: f.nodes.clear()
            elif how == "clear":
                if f.extends or f.macros or f.imports or f.blocks:
                    continue
                kept = f.nodes[:]
                f.nodes.clear()
                undo = lambda: f.nodes.extend(kept)
            elif how == "text":
                lits = [n for ns, _ in ls for n in ns if isinstance(n, Lit)]
                if not lits:
                    continue
                lit = self.rng.choice(lits)
                old = lit.text
                cut = self.rng.randint(0, len(old))
                lit.text = old[:cut] + f"Q{self.counter}q" + old[cut:]
                if any(c in old[max(0, cut - 1):cut + 1] for c in "{}%#"):
                    lit.text = f"Q{self.counter}q" + old
                undo = lambda: setattr(lit, "text", old)
            elif how == "add":
                # (only where the including file's own names are not concerned)
                spots = [ns for ns, m in ls if not m and ns is not f.nodes] or ([f.nodes] if f.extends is None and f in self.skeletons() else [])
                if not spots:
                    continue
                ns = self.rng.choice(spots)
                at = self.rng.randint(0, len(ns))
                new = File(f"{self.name}/{self.name}_new{self.counter}.html", [Lit(f"new{self.counter}")])
                new.root = self.rng.choice(self.g.roots)
                inc = Include(("", ""), new.path, new)
                ns.insert(at, inc)
                self.g.files.append(new)
                undo = lambda: (ns.remove(inc), self.g.files.remove(new))
            else:
                cands = [(ns, n) for ns, _ in ls for n in ns if isinstance(n, Include)]
                if not cands:
                    continue
                ns, n = self.rng.choice(cands)
                at = ns.index(n)
                ns[at] = Comment(("", ""), " gone ")
                undo = lambda: ns.__setitem__(at, n)
            try:
                texts = self.g.texts()
                ok = not self.g.ambiguous
                if ok:
                    self.expect = self.interpret()
            except (OverflowError, LookupError, AttributeError):
                ok = False
            if not ok:
                undo()
                self.g.texts()
                self.expect = self.interpret()
                continue
            for g in self.g.files:
                p = self.g.place_of(g.root, g.path)
                if g is f or p not in self.files:
                    self.files[p] = texts[p]
                    touched.add(self.put(d, p))
        return touched, before != self.expect

    def skeletons(self):
        return [f for f in used(self.root) if f.extends is None]


class Placed:
    """A project with files included in pairs of places, whose texts are edited"""

    def __init__(self, name, rng, todo):
        self.name, self.rng, self.todo = name, rng, todo
        self.seed, self.marks, self.links, self.retargets = rng.random(), {}, {}, 0
        self.update()

    def update(self):
        self.files, self.path, self.used, want = places.include_set(random.Random(self.seed), self.name, self.todo, self.marks)
        self.expect = {(0, "render"): ("ok", want, None)}

    def deps(self, d):
        return {os.path.realpath(os.path.join(d, "templates", f)) for f in self.used}

    def case(self):
        rs = ("use crate::rt;\n" + f'#[derive(askama::Template)]\n#[template(path = "{self.path}")]\npub struct T {{ {places.FIELDS} }}\n'
              f'pub fn run() {{ rt::exec_as("{self.name}", 0, "render", &T {{ {places.VALUE} }}); }}\n')
        return Case(self.name, self.files, rs, self.expect, "\n".join(f"--- {p}\n{t}" for p, t in self.files.items()))

    def put(self, d, p):
        write(os.path.join(d, "templates", p), self.files[p])
        return os.path.realpath(os.path.join(d, "templates", p))

    def edit(self, d):
        k = self.rng.randrange(len(self.todo))
        self.marks[k] = self.marks.get(k, "") + "q"
        old, before = self.files, self.expect
        self.update()
        return {self.put(d, p) for p in self.files if old[p] != self.files[p]}, before != self.expect


def dep_info(path):
    """The prerequisites in a dep-info file of rustc"""
    res = set()
    for line in open(path, encoding="utf-8"):
        if ": " in line and not line.startswith("#"):
            for p in re.findall(r"(?:\\.|[^\\\s])+", line.split(": ", 1)[1]):
                res.add(p.replace("\\ ", " "))
    return res


class History(Shard):
    """Projects that are edited and built again if, and only if, one of the files the compiler named has changed"""

    def __init__(self, ctx, idx, projects, data):
        super().__init__(ctx, idx, [], data, CONFIGS)
        self.projects = projects

    def start(self):
        self.setup()
        for p in self.projects:
            for f in p.files:
                p.put(self.dir, f)
            write(os.path.join(self.dir, "src", p.name + ".rs"), p.case().rs)

    def build_with_deps(self):
        cases = [p.case() for p in self.projects]
        self.rustc_extra = ["--emit=link,dep-info=" + os.path.join(self.dir, "main.d"), "-Cincremental=" + os.path.join(self.dir, "inc")]
        rc, err, exe = self.compile(cases)
        if rc:
            bad = {}
            for line in err.splitlines():
                m = re.match(r"(?:.*/)?(\w+)\.rs:\d+:\d+: error", line)
                if m:
                    bad.setdefault(m.group(1), line)
            for p in self.projects:
                if p.name in bad:
                    c = p.case()
                    self.ctx.violation(f"valid template is not accepted: {bad[p.name]}\n{c.info}", c.replay({"data.rs": self.data_rs, **CONFIGS}))
            if not set(bad) & {p.name for p in self.projects}:
                raise CheckError("cannot compile: " + err[-800:])
            self.projects = [p for p in self.projects if p.name not in bad]
            return self.build_with_deps()
        self.exe, self.built = exe, cases
        named = {os.path.join(self.dir, p) for p in dep_info(os.path.join(self.dir, "main.d"))}
        self.deps = {os.path.realpath(p) for p in named}
        self.seen = {p: self.content(p) for p in named}
        self.check_deps()

    def content(self, p):
        try:
            return open(p, "rb").read()
        except OSError:
            return None

    def outdated(self):
        """Whether the compiler is to be run again, by the files it has named"""
        return any(self.content(p) != t for p, t in self.seen.items())

    def check_deps(self):
        ctx = self.ctx
        tpl = {p for p in self.deps if not p.startswith(os.path.join(self.dir, "src") + "/")}
        for p in self.projects:
            want = p.deps(self.dir)
            # files of a project carry its name, also those in other directories
            mine = {x for x in tpl if f"/{p.name}/" in x or f"/{p.name}_" in x}
            c = p.case()
            ctx.count(("deps", p.name, c.key, tuple(sorted(want))))
            ctx.add("dependencies_checked", len(want))
            if mine != want:
                rel = lambda s: sorted(os.path.relpath(x, self.dir) for x in s)
                ctx.violation(f"{p.name}: not registered as dependencies: {rel(want - mine)}; registered but not used: {rel(mine - want)}\n{c.info}", c.replay({"data.rs": self.data_rs, **CONFIGS}))

    def judge_all(self, step, cause):
        self.results, self.crashed = {}, {}
        self.run(60)
        for p in self.projects:
            c = p.case()
            for (inst, chan), exp in p.expect.items():
                got = self.results.get((p.name, inst, chan))
                self.ctx.count(("history", step, p.name, inst, repr(exp)))
                why = default_compare(exp, got)
                if why:
                    self.ctx.violation(f"{p.name} after {step} edits ({cause}): {why}\n{c.info}", c.replay({"data.rs": self.data_rs, **CONFIGS}))
                    break

    def go(self, steps):
        self.start()
        self.build_with_deps()
        self.judge_all(0, "first build")
        for step in range(1, steps + 1):
            touched, changed, n = set(), 0, 0
            for p in self.projects:
                if step == 1 or p.rng.random() < .6:
                    t, c = p.edit(self.dir)
                    touched |= t
                    changed += c
                    n += bool(t)
            self.ctx.add("edited_projects", n)
            self.ctx.add("edits_that_change_a_page", changed)
            again = self.outdated()
            if again:
                self.ctx.add("rebuilds")
                self.build_with_deps()
            else:
                self.ctx.add("edits_without_rebuild")
            self.judge_all(step, "built again" if again else "no dependency changed")
        self.ctx.add("links_pointed_elsewhere", sum(p.retargets for p in self.projects))
        shutil.rmtree(self.dir, ignore_errors=True)

    def alone(self, steps):
        """Few edits of single projects at a time, so that nothing else causes a rebuild"""
        self.start()
        self.build_with_deps()
        for step in range(1, steps + 1):
            p = self.projects[step % len(self.projects)]
            touched, changed = p.edit(self.dir)
            if not touched:
                continue
            self.ctx.add("single_edits")
            self.ctx.add("edits_that_change_a_page", changed)
            again = self.outdated()
            if again:
                self.ctx.add("rebuilds")
                self.build_with_deps()
            else:
                self.ctx.add("edits_without_rebuild")
            self.judge_all(step, "built again" if again else "no dependency changed")
        self.ctx.add("links_pointed_elsewhere", sum(p.retargets for p in self.projects))
        shutil.rmtree(self.dir, ignore_errors=True)


def with_cargo(ctx, projects, data, steps):
    """The same with cargo, which decides itself whether to build again"""
    h = History(ctx, "cargo", projects, data)
    h.start()
    main = ["#[macro_use] mod rt;", "mod data;"] + [f"mod {p.name};" for p in projects] + ["fn main() {", "let only = std::env::args().nth(1);", "rt::quiet();"]
    main += [f'if only.as_deref().map_or(true, |o| o == "{p.name}") {{ println!("B {p.name}"); {p.name}::run(); println!("E {p.name}"); }}' for p in projects] + ["}"]
    write(os.path.join(h.dir, "src", "main.rs"), "\n".join(main))
    toml = open(os.path.join(VERIF, "harness", "libs", "Cargo.toml")).read().replace('name = "libs"', 'name = "c26"')
    write(os.path.join(h.dir, "Cargo.toml"), toml)
    shutil.copy(os.path.join(VERIF, "harness", "libs", "Cargo.lock"), os.path.join(h.dir, "Cargo.lock"))
    tgt = os.path.join(BUILD, "target-libs")
    for step in range(steps + 1):
        n = 0
        if step:
            p = projects[step % len(projects)]
            n = len(p.edit(h.dir)[0])
        rc, out, err = cargo(["build", "--offline", "--target-dir", tgt], cwd=h.dir, env={"CARGO_INCREMENTAL": "1", "RUSTFLAGS": ""}, fatal=False)
        if rc:
            c = projects[step % len(projects)].case()
            ctx.violation(f"cargo cannot build after {step} edits: {err.decode(errors='replace')[-800:]}\n{c.info}", c.replay({"data.rs": data, **CONFIGS}))
            return
        ctx.add("cargo_builds")
        h.exe, h.built = os.path.join(tgt, "debug", "c26"), [p.case() for p in projects]
        h.judge_all(f"cargo {step}", f"{n} files written")
    shutil.rmtree(h.dir, ignore_errors=True)


def main(ctx):
    ctx.rules.append("random trees of extended, included and imported files (also in several configured directories, behind symbolic links that are also pointed elsewhere, and called from templates in Rust sources): the template files the compiler names in its "
                     "dep-info must be exactly those the template refers to at any depth (also from all pairs of places of other constructs, in files of all roles); then histories of edits (text changed anywhere, includes of new files added, includes removed), after each of which the program is built again only if a "
                     "file in the dep-info changed, incrementally, and must render what the reference interpreter yields for the edited files; some of the histories by cargo itself; a case is a dependency set or a page after an edit")
    insts = instances(ctx.rng("data"), 2)
    data = data_rs(insts)
    build_libs()

    def project(tag, i):
        for t in range(200):
            try:
                return Project(ctx, f"{tag}{i}", ctx.rng(f"{tag}{i}/{t}"), insts)
            except OverflowError:
                pass
        raise CheckError("cannot generate a project")
    n, size = ctx.scale(16, 96), ctx.scale(36, 40)
    hs = [History(ctx, f"h{k}", [project(f"c{k}x", i) for i in range(size)], data) for k in range(n)]
    singles = [History(ctx, f"a{k}", [project(f"a{k}x", i) for i in range(ctx.scale(6, 8))], data) for k in range(ctx.scale(16, 64))]
    for k in range(ctx.scale(1, 4)):
        rng = ctx.rng(f"places{k}")
        todo = places.pairs(rng)
        ps = [Placed(f"pl{k}x{q}", ctx.rng(f"places{k}/{q}"), todo[q:q + 24]) for q in range(0, len(todo), 24)]
        hs.append(History(ctx, f"pl{k}", ps[::2], data))
        singles += [History(ctx, f"pa{k}x{q}", ps[1 + 2 * q:3 + 2 * q:2], data) for q in range(len(ps) // 2)]
        ctx.add("pairs_of_places_of_includes", len(todo))
    for p in hs[0].projects[:3]:
        ctx.sample({"files": p.files, "template": p.source, "links": p.links, "depends_on": sorted(os.path.relpath(x, "/t/templates") for x in p.deps("/t"))})
    pmap(lambda j: j[0](j[1]), [(h.go, ctx.scale(3, 8)) for h in hs] + [(h.alone, ctx.scale(8, 30)) for h in singles])
    with_cargo(ctx, [project("k", i) for i in range(12)], data, ctx.scale(6, 40))


run_check("C26", main)
