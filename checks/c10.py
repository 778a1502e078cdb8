import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from wrong import *
import places

DIRS = {"two.toml": ["templates", "extra"], "three.toml": ["extra", "more/tpl", "templates"], "one.toml": ["more/tpl"]}
CONFIGS = {k: "[general]\ndirs = " + json.dumps(v) + "\n" for k, v in DIRS.items()}
CONFIGS["askama.toml"] = CONFIGS["two.toml"]
DIRS["askama.toml"] = DIRS["two.toml"]


def place_cases(rng, tag):
    """Files included in all pairs of places of files of all roles"""
    cases, todo = [], places.pairs(rng)
    for q in range(0, len(todo), 24):
        name = f"{tag}_{q}"
        files, path, _, want = places.include_set(rng, name, todo[q:q + 24])
        rs = ("use crate::rt;\n" + f'#[derive(askama::Template)]\n#[template(path = "{path}")]\npub struct T {{ {places.FIELDS} }}\n'
              f'pub fn run() {{ rt::exec_as("{name}", 0, "render", &T {{ {places.VALUE} }}); }}\n')
        cases.append(Case(name, files, rs, {(0, "render"): ("ok", want, None)}, "\n".join(f"--- {p}\n{t}" for p, t in files.items())))
    return cases


def main(ctx):
    ctx.rules.append("random trees of included, extended and imported files in several directories of several configured roots, called by relative, `./`, `../` "
                     "and root-relative paths, with decoys of the same name where a wrong search order would find them, and with variables, macros and loops "
                     "around the includes; files included in all pairs of places of other constructs, from files of all roles; 2 values each, compared with a reference interpreter; and sets with one mistake, which must be rejected")
    insts = instances(ctx.rng("data"), 2)
    cases = []
    for i in range(ctx.scale(1200, 9000)):
        def make(t):
            rng = ctx.rng(f"{i}/{t}")
            cfg = rng.choice(sorted(DIRS))
            g = Multi(rng, f"c{i}", alike=rng.random() < .3, varied=rng.random() < .4, trace=.05, ws=rng.choice([0, .2]), esc=.05, depth=rng.choice([2, 3]), edepth=1, max_nodes=40, width=4, space=.1, macros=2, imports=2,
                      includes=True, include_extends=.2, roots=DIRS[cfg],
                      nodes={"lit": 4, "expr": 4, "let": 2, "if": 1, "match": .7, "for": 1.5, "decl": .2, "filter": .5, "raw": .2, "comment": .2, "call": 1, "include": 4})
            g.cur_root = rng.choice(g.roots)
            if rng.random() < .4:
                f = g.hierarchy(rng.choice([1, 2, 3]))
            else:
                pre, call = g.preamble(g.cur_dir)
                g.callable = call
                f = g.new_file(pre + g.body(g.prof["depth"], 2, 6, scope=False), g.cur_dir)
            for r in g.roots[g.roots.index(f.root) + 1:]:
                g.decoys[r, f.path] = "DECOY"
            ctx.add("files", len(g.files))
            ctx.add("decoys", len(g.decoys))
            c = multi_case(ctx, f"c{i}", g, f, insts, "" if cfg == "askama.toml" else f', config = "{cfg}"')
            if c and rng.random() < .25:
                # The same tree from a template in the Rust source, which is in no directory: not in the one the compiler runs in, either.
                how = rng.choice(["extends", "include"])
                c.rs = c.rs.replace(f'path = "{f.path}"', f'source = "{{% {how} \\"{f.path}\\" %}}", ext = "html"', 1)
                c.files["../" + f.path] = "DECOY"
                c.info += f"\n(from a source that has: {how} {f.path})"
                ctx.add("from_rust_sources")
            return c
        cases.append(retry(make))
    for i in range(ctx.scale(1, 6)):
        cases += place_cases(ctx.rng(f"places{i}"), f"pl{i}")
    ctx.add("pairs_of_places_of_includes", len(places.PLACES) ** 2)
    for c in cases[:3]:
        ctx.sample(show_case(c))
    run_cases(ctx, cases, data_rs(insts), configs=CONFIGS, nontrivial=lambda c, i, e: bool(e[1]))

    def trees(rng, name):
        cfg = rng.choice(sorted(DIRS))
        g = Multi(rng, name, trace=0, ws=0, esc=.05, depth=2, edepth=1, max_nodes=25, width=3, macros=1, imports=1, includes=True, include_extends=.2, roots=DIRS[cfg], nodes={"lit": 3, "expr": 2, "let": 1, "if": 1, "for": 1, "include": 4})
        g.cur_root = rng.choice(g.roots)
        if rng.random() < .4:
            f = g.hierarchy(rng.choice([1, 2, 3]))
        else:
            pre, call = g.preamble(g.cur_dir)
            g.callable = call
            f = g.new_file(pre + g.body(2, 2, 6, scope=False), g.cur_dir)
        return g, f, "" if cfg == "askama.toml" else f', config = "{cfg}"'
    wrong_cases(ctx, ctx.scale(200, 2500), wrong_path, trees, insts[:1], CONFIGS)


run_check("C10", main)
