import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *


def main(ctx):
    ctx.rules.append("random nests of if/elif/else-if/else, if-let and match (literals, alternatives, tuples, structs, enum paths, Option, Result, bindings, "
                     "else arms) whose conditions, scrutinees and bodies report their evaluation; 4 values each, output and order of evaluations "
                     "compared with a reference interpreter")
    insts = instances(ctx.rng("data"), 4)
    cases = []
    for i in range(ctx.scale(1800, 12000)):
        def make(t):
            rng = ctx.rng(f"{i}/{t}")
            g = Gen(rng, trace=.45, ws=rng.choice([0, .15]), esc=.02, depth=rng.choice([2, 3, 4]), edepth=rng.choice([1, 2]), max_nodes=40, width=4, space=.1, many=rng.choice([.03, .03, .2]),
                    nodes={"lit": 3, "expr": 3, "let": .7, "if": 6, "match": 6, "for": .7, "decl": .3, "filter": .2, "raw": .1, "comment": .2})
            f = g.simple(f"c{i}/main.html")
            return mkcase(ctx, f"c{i}", f, {f.path: f.text(None, g.sp)}, insts, features=g.features)
        cases.append(retry(make))
    for c in cases[:3]:
        ctx.sample(show_case(c))
    run_cases(ctx, cases, data_rs(insts), nontrivial=lambda c, i, e: bool(e[1]) or bool(e[2]))


run_check("C06", main)
