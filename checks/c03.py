import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *
import places

CONFIGS = {
    "suppress.toml": '[general]\nwhitespace = "suppress"\n',
    "minimize.toml": '[general]\nwhitespace = "minimize"\n',
    "preserve.toml": '[general]\nwhitespace = "preserve"\n',
}


class Seen:
    """Which pairs of tags and signs around which kinds of literals occurred"""

    def __init__(self):
        self.pairs = set()

    def add(self, E, ws):
        for i, l in enumerate(E.toks):
            if isinstance(l, Lit):
                a = E.kinds[i - 1] if i else "start"
                b = E.kinds[i + 1] if i + 1 < len(E.toks) else "end"
                l0 = E.toks[i - 1][1] if i else None
                r0 = E.toks[i + 1][0] if i + 1 < len(E.toks) else None
                cls = ("blank" if not l.text.strip(WS) else "text") + ("+nl" if "\n" in l.text else "")
                self.pairs.add((a, l0, cls, r0, b, ws))


def main(ctx):
    ctx.rules.append("random templates of every kind of tag with random white space signs around hostile literal text, under each whitespace setting "
                     "(attribute, configuration, both); files with and without trailing line breaks; white space in all pairs of places of constructs, in files of all roles; rendered and compared with a model that assigns each "
                     "white space run its fate; `pairs` counts distinct (tag, sign, kind of text, sign, tag, setting)")
    insts = instances(ctx.rng("data"), 2)
    cases = []
    seen = Seen()
    for i in range(ctx.scale(2000, 16000)):
        def make(t):
            rng = ctx.rng(f"{i}/{t}")
            mode = rng.choice(["plain", "ws", "ws", "hostile", "hostile"])
            g = Multi(rng, f"c{i}", varied=rng.random() < .4, trace=0, ws=rng.choice([0, .3, .6, .9]), esc=.05, depth=2, edepth=rng.choice([0, 1]), max_nodes=40, width=5, space=rng.choice([0, .3]), macros=2, imports=1,
                      includes=rng.random() < .5, lit=mode,
                      nodes={"lit": 14, "expr": 6, "let": 2, "if": 2, "match": 1.3, "for": 1.3, "decl": .3, "filter": .8, "raw": 2, "comment": 2, "call": 1.5, "include": 1.2, "break": .5})
            if rng.random() < .35:
                f = g.hierarchy(rng.choice([1, 2, 2, 3]))
            else:
                pre, call = g.preamble(g.cur_dir)
                g.callable = call
                f = g.new_file(pre + g.body(g.prof["depth"], 3, 8, scope=False), g.cur_dir)
            ws = rng.choice(["preserve", "suppress", "minimize"])
            attrs = rng.choice([f', whitespace = "{ws}"', f', config = "{ws}.toml"',
                                f', whitespace = "{ws}", config = "{rng.choice(sorted(CONFIGS))}"'])
            if ws == "preserve" and rng.random() < .5:
                attrs = ""
            if rng.random() < .01:
                g.bulk(f.nodes)
            # only one line break at the end of a file is dropped
            for x in g.files:
                x.trailing = rng.choice(["", "\n", "\n"]) if not (x.nodes and isinstance(x.nodes[-1], Lit) and x.nodes[-1].text.endswith("\n")) else "\n"
            c = multi_case(ctx, f"c{i}", g, f, insts, attrs, whitespace=ws)
            if c is not None:
                for x in g.files:
                    E = Emit()
                    E.nodes(x.nodes)
                    seen.add(E, ws)
            return c
        cases.append(retry(make))
    # Inline sources are shown as they are, including their last line break
    for i in range(ctx.scale(200, 1500)):
        def make(t):
            rng = ctx.rng(f"s{i}/{t}")
            g = Gen(rng, ws=.4, edepth=0, max_nodes=15, lit=rng.choice(["ws", "hostile"]), nodes={"lit": 10, "raw": 1, "comment": 1})
            f = g.simple("x")
            if f.nodes and not isinstance(f.nodes[-1], Lit) and rng.random() < .6:
                f.nodes.append(Lit(rng.choice(["\n", "\n\n", " \n", "x\n", "\r\n"])))
            f.trailing = ""
            ws = rng.choice(["preserve", "suppress", "minimize"])
            E = Emit(None, g.sp)
            E.nodes(f.nodes)
            E.finish(ws, "")
            if E.ambiguous:
                return None
            attrs = f'source = {rs_str(E.source())}, ext = "html", whitespace = "{ws}"'
            name = f"s{i}"
            return Case(name, {}, module_rs([struct_rs("T", attrs)], run_rs(name, "T", len(insts))), interpret(f, insts), attrs)
        cases.append(retry(make))
    # in all pairs of places of other constructs: white space next to signs, or by configuration, and texts that look like tags
    signs = lambda t: re.sub(r"\{% ?(.*?) ?%\}", r" {%- \1 -%}\n", t)
    spaces = lambda t: re.sub(r"(\{%.*?%\})", r" \1\r\n", t)
    silent = [p for k in ("loops", "calls", "filters") for p in places.PROBES[k]]
    for i in range(ctx.scale(1, 6)):
        cases += places.probe_cases(ctx.rng(f"places{i}"), f"pl{i}", places.PROBES["spaces"])
        cases += places.probe_cases(ctx.rng(f"signs{i}"), f"ps{i}", places.PROBES["spaces"] + silent, tidy=signs)
        cases += places.probe_cases(ctx.rng(f"suppress{i}"), f"pc{i}", silent, tidy=spaces, attrs=', whitespace = "suppress"')
        cases += places.probe_cases(ctx.rng(f"texts{i}"), f"pt{i}", places.PROBES["texts"])
    ctx.add("pairs_of_places", len(places.PLACES) ** 2)
    ctx.extra["pairs"] = len(seen.pairs)
    for c in cases[:3]:
        ctx.sample(show_case(c))
    run_cases(ctx, cases, data_rs(insts), configs=CONFIGS, nontrivial=lambda c, i, e: bool(e[1]))


run_check("C03", main)
