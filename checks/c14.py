import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *
import places


def main(ctx):
    ctx.rules.append("random templates with many (nested, chained, empty) filter blocks around and inside of loops, conditions, macros, blocks, includes and "
                     "other filter blocks, with filters with arguments, safe and escape; filter blocks in all pairs of places of other constructs, in files of all roles; 3 values each, output and order of evaluations compared with a reference interpreter")
    insts = instances(ctx.rng("data"), 3)
    cases = []
    for i in range(ctx.scale(1600, 12000)):
        def make(t):
            rng = ctx.rng(f"{i}/{t}")
            g = Multi(rng, f"c{i}", tower=.02, trace=.1, ws=rng.choice([0, .2]), esc=.1, depth=rng.choice([2, 3, 4]), edepth=1, max_nodes=40, width=4, space=.1, macros=2,
                      includes=rng.random() < .4, escnames=rng.choice([None, ["html", "txt", "none"]]),
                      filters=["upper", "lower", "trim", "capitalize", "wrap", "tag", "len", "rev", "center", "wordcount", "linebreaks", "linebreaksbr", "title", "indent", "tf", "truncate"],
                      nodes={"lit": 4, "expr": 5, "let": 1, "if": 1.5, "match": .7, "for": 1.5, "decl": .2, "filter": 7, "raw": .5, "comment": .2, "call": 1, "include": .8, "break": .5})
            if rng.random() < .4:
                f = g.hierarchy(rng.choice([1, 2]))
            else:
                pre, call = g.preamble(g.cur_dir, n_imports=0)
                g.callable = call
                f = g.new_file(pre + g.body(g.prof["depth"], 2, 6, scope=False), g.cur_dir)
            ctx.add("filter_blocks", sum(t.count("endfilter") for t in g.texts().values()))
            return multi_case(ctx, f"c{i}", g, f, insts)
        cases.append(retry(make))
    for i in range(ctx.scale(1, 6)):
        cases += places.probe_cases(ctx.rng(f"places{i}"), f"pl{i}", places.PROBES["filters"])
    ctx.add("pairs_of_places", len(places.PLACES) ** 2)
    for c in cases[:3]:
        ctx.sample(show_case(c))
    run_cases(ctx, cases, data_rs(insts), nontrivial=lambda c, i, e: bool(e[1]))


run_check("C14", main)
