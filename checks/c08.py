import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from wrong import *
import places

SMALL = ["x", "y", "a", "s", "type", "fn", "p", "val", "m1", "m2"]


def fixed():
    """Arguments are evaluated once, however often the macro uses them, and even if it does not"""
    cases = []
    n = 0
    for arg, want, trace, ident in (
            ("t::i(7, 3)", "3", [7], None), ("t::i(7, 3) + t::i(8, 1)", "4", [7, 8], None), ("t::s(7, 3)|wrap(1)", "[3:1]", [7], None),
            ("t::p2(t::i(7, 3), 5).x", "3", [7], "macro-argument-field-of-call"), ("t::p2(t::i(7, 3), t::i(8, 5)).y", "5", [7, 8], "macro-argument-field-of-call")):
        for uses in (0, 1, 2, 3):
            for named in (False, True):
                src = "{%% macro m(z) %%}%s{%% endmacro %%}<{%% call m(%s%s) %%}>" % ("{{ z }}," * uses, "z = " if named else "", arg)
                if uses == 1 and ident:
                    continue  # the expected outcome either way
                name = f"k{n}"
                n += 1
                cases.append(Case(name, {f"{name}.txt": src}, module_rs([struct_rs("T", f'path = "{name}.txt"')], run_rs(name, "T", 1)), {(0, "render"): ("ok", "<" + (want + ",") * uses + ">", trace)}, src, ident=ident))
    return cases


def main(ctx):
    ctx.rules.append("random templates with many macros (nested calls, imports under several scopes, calls in loops, conditions, filter blocks, blocks and includes), "
                     "positional and named arguments in any order, whose parameters, locals and caller variables share few names; arguments report their "
                     "evaluation; calls in all pairs of places of other constructs, in files of all roles; 3 values each, compared with a reference interpreter; and sets with one mistake, which must be rejected")
    insts = instances(ctx.rng("data"), 3)
    cases = fixed()
    for i in range(ctx.scale(1300, 10000)):
        def make(t):
            rng = ctx.rng(f"{i}/{t}")
            g = Multi(rng, f"c{i}", trace=.15, ws=rng.choice([0, .2]), esc=.05, depth=rng.choice([1, 2]), edepth=rng.choice([1, 2]), max_nodes=40, width=4, space=.1, macros=4, imports=2,
                      includes=rng.random() < .3, locals=rng.choice([SMALL, None]),
                      nodes={"lit": 3, "expr": 3, "let": 3, "if": 1, "match": .5, "for": 1, "decl": .2, "filter": .4, "raw": .1, "comment": .1, "call": 9, "include": .7})
            if rng.random() < .3:
                f = g.hierarchy(rng.choice([1, 2, 3]))
            else:
                pre, call = g.preamble(g.cur_dir)
                if not call:
                    pre, call = g.preamble(g.cur_dir, n_macros=2)
                g.callable = call
                f = g.new_file(pre + g.body(g.prof["depth"], 3, 8, scope=False), g.cur_dir)
            src = g.texts()
            ctx.add("calls", sum(t.count("call ") for t in src.values()))
            return multi_case(ctx, f"c{i}", g, f, insts)
        cases.append(retry(make))
    for i in range(ctx.scale(1, 6)):
        cases += places.probe_cases(ctx.rng(f"places{i}"), f"pl{i}", places.PROBES["calls"])
    ctx.add("pairs_of_places", len(places.PLACES) ** 2)
    for c in cases[:3]:
        ctx.sample(show_case(c))
    run_cases(ctx, cases, data_rs(insts), nontrivial=lambda c, i, e: bool(e[1]))

    def with_calls(rng, name):
        g = Multi(rng, name, trace=0, ws=0, esc=.05, depth=2, edepth=1, max_nodes=25, width=4, space=.1, macros=3, imports=1, includes=True, nodes={"lit": 3, "expr": 2, "let": 1, "if": 1, "for": 1, "call": 6, "include": 1})
        pre, call = g.preamble(g.cur_dir)
        g.callable = call
        return g, g.new_file(pre + g.body(2, 3, 8, scope=False), g.cur_dir), ""
    wrong_cases(ctx, ctx.scale(250, 3000), wrong_call, with_calls, insts[:1])


run_check("C08", main)
