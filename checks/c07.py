import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *
import places


def main(ctx):
    ctx.rules.append("random nests of loops (vectors, slices, ranges, arrays, iterators, Option, nested fields, tuple targets; conditions, else, break, continue, "
                     "loop.* and loop.cycle) in macros, includes and other constructs, and loops of up to 260 rounds, and some of up to 131 072; loops in all pairs of places of other constructs, in files of all roles; 4 values each, including empty and one-element sequences, compared with a reference interpreter")
    insts = instances(ctx.rng("data"), 4)
    insts[3].update(v=[7, -7], w=["", "<"], x0=[5], items=[rand_item(ctx.rng("it"))], n=0)
    cases = []
    for i in range(ctx.scale(1800, 12000)):
        def make(t):
            rng = ctx.rng(f"{i}/{t}")
            g = Multi(rng, f"c{i}", trace=.1, ws=rng.choice([0, .15]), esc=.02, depth=rng.choice([2, 3, 4]), edepth=1, max_nodes=40, width=4, space=.1,
                      includes=rng.random() < .3, macros=2,
                      nodes={"lit": 3, "expr": 6, "let": .7, "if": 1, "match": .5, "for": 7, "decl": .1, "filter": .3, "raw": 0, "comment": 0, "break": 2.5, "call": 1, "include": .6})
            pre, call = g.preamble(g.cur_dir, n_imports=0)
            g.callable = call
            f = g.new_file(pre + g.body(g.prof["depth"], 2, 6, scope=False), g.cur_dir)
            return multi_case(ctx, f"c{i}", g, f, insts)
        cases.append(retry(make))
    # many rounds, and many values to cycle through
    for i in range(ctx.scale(200, 1500)):
        def make(t):
            rng = ctx.rng(f"long{i}/{t}")
            g = Multi(rng, f"l{i}", trace=.05, ws=0, esc=.02, depth=1, edepth=1, max_nodes=10, width=3, many=.5)

            def loop(d):
                lo, rounds = rng.randint(-3, 3), rng.choice([3, 17, 33, 65, rng.randint(0, 140), 260] if d == 0 else [2, 5, 18])
                v = g.new_name()
                hi = X("lit", str(lo + rounds), lo + rounds)
                x = X("range", "..", X("lit", str(lo), lo), hi) if lo >= 0 else X("range", "..", X("un", "-", X("lit", str(-lo), -lo)), X("group", X("bin", "+", hi, X("lit", "0", 0))))
                if lo < 0 and lo + rounds < 0:
                    raise OverflowError
                g.loops += 1
                ob, g.can_break = g.can_break, True
                g.scopes.append({v: V("int", 0, 1 << 20)})
                body = []
                for _ in range(rng.randint(1, 3)):
                    body += [Lit(rng.choice([",", " ", "<i>", ";"])), Expr(g.ws(), g.loop_x())]
                    if d == 0 and rng.random() < .12:
                        body.append(loop(1))
                    if rng.random() < .15:
                        body += [n for n in g.node(1) if not isinstance(n, Lit)]
                g.scopes.pop()
                cond = None
                if rng.random() < .3:
                    g.scopes.append({v: V("int", 1, 1 << 20)})
                    cond = X("bin", "!=", X("bin", "%", X("fn", "t::n", [X("var", v)]), X("lit", (k := str(rng.randint(2, 9))), int(k))), X("lit", "1", 1))
                    g.scopes.pop()
                g.loops -= 1
                g.can_break = ob
                return For(g.ws(), v, x, cond, body, g.ws(), [Lit("none")] if rng.random() < .3 else None, g.ws())
            f = g.new_file([loop(0), Lit(".")], g.cur_dir)
            return multi_case(ctx, f"l{i}", g, f, insts[:1])
        cases.append(retry(make))
    # more rounds than small integers can count; what is shown depends on loop.* near their limits
    edges = [n + k for n in (1 << 8, 1 << 15, 1 << 16, 100_000) for k in (-1, 0, 1)]
    for i in range(ctx.scale(6, 24)):
        rng = ctx.rng(f"huge{i}")
        lo, rounds = rng.choice([0, 1, -5, 65_530]), [1 << 16, (1 << 16) + 1, 65_600, 100_002, 70_000, 1 << 17][i % 6]
        g = Multi(rng, f"h{i}", ws=0, trace=0)
        g.loops, g.in_cond = 1, True
        lv = lambda a: X("attr", X("var", "loop"), a)
        lit = lambda v: X("lit", str(v), v)
        conds = [X("bin", "==", lv(rng.choice(["index", "index0"])), lit(e)) for e in rng.sample(edges, 5)] + [lv("first"), lv("last")]
        rng.shuffle(conds)
        c = conds[0]
        for k in conds[1:]:
            c = X("bin", "||", c, k)
        arr = X("array", [lit(v) for v in range(rng.choice([2, 3, 7, 10]))])
        shown = [Lit(" "), Expr(("", ""), lv("index")), Lit(","), Expr(("", ""), lv("index0")), Lit(","), Expr(("", ""), lv("first")), Lit(","), Expr(("", ""), lv("last")), Lit(","),
                 Expr(("", ""), X("meth", X("var", "loop"), "cycle", [arr])), Lit(","), Expr(("", ""), X("var", "round"))]
        top = X("lit", str(lo + rounds), lo + rounds)
        x = X("range", "..", lit(lo) if lo >= 0 else X("un", "-", lit(-lo)), top)
        f = g.new_file([For(("", ""), "round", x, None, [If([(("", ""), c, shown)], ("", ""))], ("", ""), None, ("", "")), Lit(".")], g.cur_dir)
        cases.append(multi_case(ctx, f"h{i}", g, f, insts[:1]))
        ctx.add("rounds_of_huge_loops", rounds)
    for i in range(ctx.scale(1, 6)):
        cases += places.probe_cases(ctx.rng(f"places{i}"), f"pl{i}", places.PROBES["loops"])
    ctx.add("pairs_of_places", len(places.PLACES) ** 2)
    for c in cases[:3]:
        ctx.sample(show_case(c))
    run_cases(ctx, cases, data_rs(insts), nontrivial=lambda c, i, e: bool(e[1]))


run_check("C07", main)
