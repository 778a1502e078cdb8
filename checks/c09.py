import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from wrong import *
import places


def place_cases(rng, tag):
    """Blocks in all pairs of places of the base, with all ways to override them"""
    cases = []
    todo = places.pairs(rng)
    for q in range(0, len(todo), 24):
        name = f"{tag}_{q}"
        base, mid, child, want = "", "", "", ""
        for k, (a, b) in enumerate(todo[q:q + 24]):
            t, f = places.nested(a, b)
            n, how, x = f"blk{k}", rng.randrange(8), f"d{k}" + "{{ self.n }}"
            r = f"d{k}3"
            inner = rng.random() < .3
            if inner:  # in a block of its own
                t = t.replace("X", "{% block in" + str(k) + " %}<X>{% endblock %}")
                r = r
            base += t.replace("X", "{% block " + n + " %}" + x + "{% endblock %}") + ";"
            if how in (1, 3, 5):
                mid += "{% block " + n + " %}m" + ("[{% call super() %}]" if how != 1 else "") + "{% endblock %}"
                r = "m" + (f"[{r}]" if how != 1 else "")
            if how in (2, 4, 5, 6):
                sup = rng.choice(["[{% call super() %}]", "[{% if self.b %}{% call super() %}{% endif %}]", "[{% for _i in self.e %}{% else %}{% call super() %}{% endfor %}]", "[{% filter lower %}{% call super() %}{% endfilter %}]"])
                child += "{% block " + n + " %}c" + (sup if how != 2 else "") + "{% endblock %}"
                r = "c" + (f"[{r}]" if how != 2 else "")
            if inner:
                over = rng.choice(["", "mid", "child"])
                if over:
                    w = "{% block in" + str(k) + " %}o{% call super() %}{% endblock %}"
                    mid, child = (mid + w, child) if over == "mid" else (mid, child + w)
                r = ("o" if over else "") + f"<{r}>"
            want += f(r) + ";"
        files = {f"{name}/base.txt": base, f"{name}/mid.txt": '{% extends "base.txt" %}' + mid, f"{name}/child.txt": '{% extends "mid.txt" %}' + child}
        rs = ("use crate::rt;\n" + f'#[derive(askama::Template)]\n#[template(path = "{name}/child.txt")]\npub struct T {{ {places.FIELDS} }}\n'
              f'pub fn run() {{ rt::exec_as("{name}", 0, "render", &T {{ {places.VALUE} }}); }}\n')
        cases.append(Case(name, files, rs, {(0, "render"): ("ok", want, None)}, "\n".join(files.values())))
    return cases


def main(ctx):
    ctx.rules.append("random chains of 1 to 7 templates in several directories; blocks nested in blocks and other constructs, overridden "
                     "partially, with super(), macros and imports; rendered whole and as single blocks for 3 values and compared "
                     "with a reference interpreter; blocks in all pairs of places of other constructs; and sets with one mistake, which must be rejected")
    insts = instances(ctx.rng("data"), 3)
    cases = []
    for i in range(ctx.scale(600, 6000)):
        def make(t):
            rng = ctx.rng(f"{i}/{t}")
            g = Multi(rng, f"c{i}", alike=rng.random() < .3, varied=rng.random() < .4, trace=.1, ws=rng.choice([0, 0, .2]), esc=.05, depth=2, edepth=1, max_nodes=40, width=3,
                      macros=2, imports=1, includes=rng.random() < .3,
                      nodes={"include": .7, "filter": .5, "decl": .2, "lit": 5, "expr": 4, "let": 1.5, "match": .6})
            levels = rng.choice([1, 2, 2, 3, 3, 4, 4, 5])
            f = g.hierarchy(levels)
            bl = fragments(f)
            rng.shuffle(bl)
            return multi_case(ctx, f"c{i}", g, f, insts, blocks=bl[:rng.choice([0, 1, 2])])
        cases.append(retry(make))
    for i in range(ctx.scale(1, 6)):
        cases += place_cases(ctx.rng(f"places{i}"), f"pl{i}")
    ctx.add("pairs_of_places_of_blocks", len(places.PLACES) ** 2)
    for c in cases[:3]:
        ctx.sample(show_case(c))
    run_cases(ctx, cases, data_rs(insts), nontrivial=lambda c, i, e: bool(e[1]))

    def chain(rng, name):
        g = Multi(rng, name, trace=0, ws=0, esc=.05, depth=2, edepth=1, max_nodes=25, width=3, macros=1, imports=1, includes=False, nodes={"lit": 5, "expr": 3, "let": 1, "if": 2, "for": 1})
        return g, g.hierarchy(rng.choice([1, 2, 2, 3])), ""
    wrong_cases(ctx, ctx.scale(200, 2500), wrong_block, chain, insts[:1])


run_check("C09", main)
