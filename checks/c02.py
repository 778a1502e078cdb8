import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *
import places

HTML = ["html", "htm", "svg", "xml", "j2", "jinja", "jinja2"]
TEXT = ["md", "none", "txt", "typ", "yml", ""]

CONFIGS = {
    # brackets for new extensions, and for one that is HTML by default
    "askama.toml": '[[escaper]]\npath = "crate::rt::Brackets"\nextensions = ["br", "js", "svg"]\n',
    "other.toml": '[[escaper]]\npath = "crate::rt::Brackets"\nextensions = ["html", "txt"]\n'
                  '[[escaper]]\npath = "::askama::Text"\nextensions = ["htm", "html"]\n',
    # configured directories must not matter
    "dirs.toml": '[general]\ndirs = ["templates"]\n[[escaper]]\npath = "::askama::Html"\nextensions = ["md", "css"]\n',
}
TABLE = {"askama.toml": {**{e: "html" for e in HTML}, **{e: "text" for e in TEXT}, "br": "brackets", "js": "brackets", "svg": "brackets"},
         "other.toml": {**{e: "html" for e in HTML}, **{e: "text" for e in TEXT}, "html": "brackets", "txt": "brackets", "htm": "text"},
         "dirs.toml": {**{e: "html" for e in HTML}, **{e: "text" for e in TEXT}, "md": "html", "css": "html"}}


def main(ctx):
    ctx.rules.append("random templates with special characters in values, literals and literal text, reached through macros, includes, imports, "
                     "blocks, filter blocks, and filters (safe, escape, named escapers, chains), for every known extension, `ext`, `escape` attributes "
                     "and configured escapers; values in all pairs of places of other constructs, in files of all roles; rendered for 3 values and compared with a reference interpreter")
    insts = instances(ctx.rng("data"), 3)
    for d in insts:
        d["s"] += "<\"&'>"
    cases = []
    for i in range(ctx.scale(1600, 12000)):
        def make(t):
            rng = ctx.rng(f"{i}/{t}")
            cfg = rng.choice(["askama.toml"] * 3 + ["other.toml", "dirs.toml"])
            tab = TABLE[cfg]
            ext = rng.choice(sorted(tab)) if rng.random() < .6 else "html"
            if ext and rng.random() < .3:
                ext = rng.choice(["html.", "txt.", "br.", "j2."]) + ext
            names = dict(tab)
            g = Multi(rng, f"c{i}", ext=ext, trace=0, ws=0, esc=.35, depth=2, edepth=rng.choice([1, 2]), max_nodes=30, width=4, space=.1, macros=2, imports=1, includes=rng.random() < .6,
                      escnames=sorted(e for e in tab if e), filters=["upper", "lower", "trim", "capitalize", "wrap", "tag", "len", "rev", "join", "center"],
                      nodes={"lit": 3, "expr": 8, "let": 2, "if": 1, "match": .7, "for": 1, "decl": .1, "filter": 1, "raw": .2, "comment": .1, "call": 2, "include": 1})
            g.exts = sorted(tab) if rng.random() < .5 else None
            if rng.random() < .4:
                f = g.hierarchy(rng.choice([2, 2, 3]))
            else:
                pre, call = g.preamble(g.cur_dir)
                g.callable = call
                f = g.new_file(pre + g.body(g.prof["depth"], 2, 6, scope=False), g.cur_dir)
            attrs = "" if cfg == "askama.toml" else f', config = "{cfg}"'
            base = f.path.rsplit("/", 1)[1]
            e = base.rsplit(".", 1)[1] if "." in base else ""
            esc = tab[e]
            if rng.random() < .25:
                # inner extensions do not matter for escaping of .j2 etc., `escape` has precedence
                k = rng.choice(sorted(k for k in tab if k))
                attrs += f', escape = "{k}"'
                esc = tab[k]
            bl = fragments(f)
            rng.shuffle(bl)
            ctx.add(f"escaper_{esc}")
            return multi_case(ctx, f"c{i}", g, f, insts, attrs, esc, bl[:rng.choice([0, 1])], names=names)
        cases.append(retry(make))
    # inline sources get their escaper from `ext`
    for i in range(ctx.scale(200, 2000)):
        def make(t):
            rng = ctx.rng(f"s{i}/{t}")
            cfg = rng.choice(sorted(TABLE))
            tab = TABLE[cfg]
            ext = rng.choice(sorted(tab))
            g = Gen(rng, ws=0, esc=.35, edepth=2, max_nodes=15, escnames=sorted(e for e in tab if e))
            f = g.simple("x", rng.choice([0, 1]))
            f.trailing = ""
            text = f.text(None, g.sp)
            attrs = f'source = {rs_str(text)}, ext = "{ext}", config = "{cfg}"'
            esc = tab[ext]
            if rng.random() < .3:
                k = rng.choice(sorted(k for k in tab if k))
                attrs += f', escape = "{k}"'
                esc = tab[k]
            ctx.add(f"escaper_{esc}")
            name = f"s{i}"
            exp = interpret(f, insts, esc, names=tab)
            return Case(name, {}, module_rs([struct_rs("T", attrs)], run_rs(name, "T", len(insts))), exp, attrs)
        cases.append(retry(make))
    for i in range(ctx.scale(1, 6)):
        cases += places.probe_cases(ctx.rng(f"places{i}"), f"pl{i}", places.PROBES["escapes"], ext="html")
    ctx.add("pairs_of_places", len(places.PLACES) ** 2)
    for c in cases[:3]:
        ctx.sample(show_case(c))
    run_cases(ctx, cases, data_rs(insts), configs=CONFIGS, nontrivial=lambda c, i, e: bool(e[1]) and any(x in e[1] for x in ("&", "<", "[")))


run_check("C02", main)
