import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *

CHANNELS = open(os.path.join(VERIF, "lib", "channels.rs")).read()
NAMES = re.findall(r'(?:text|into)!\("(\w+)"', CHANNELS)
NAMES += [f"{p}short{n}i{i}" for p in ("", "dyn") for n, i in [(1, 0), (1, 2), (2, 3), (3, 5), (7, 0), (7, 2), (64, 0), (2**64 - 1, 2)]]


def compare(exp, got):
    if exp[0] == "ok":
        return default_compare((exp[0], exp[1], None), got)
    if got is None:
        return "nothing was reported"
    if not got[0].startswith("err:"):
        return f"rendering fails ({exp[0]}), but observed {got[0]} with {got[1]!r}"
    return None


def main(ctx):
    ctx.rules.append("random templates (also inheritance, includes, macros, filter blocks; a third with something that fails), 2 values each, rendered through "
                     f"{len(NAMES)} channels (methods, references, trait objects, Display, size hints 0 to usize::MAX, io writers that accept few bytes, are interrupted or buffered), "
                     "each compared with a reference interpreter; then again with targets that fail at every call or byte (once or for good), whose received bytes must be a prefix of the full text, "
                     "with an error reported and no panic")
    insts = instances(ctx.rng("data"), 2)
    cases = []
    for i in range(ctx.scale(1000, 6000)):
        def make(t):
            rng = ctx.rng(f"{i}/{t}")
            g = Multi(rng, f"c{i}", trace=.05, ws=rng.choice([0, .2]), esc=.2, depth=rng.choice([1, 2, 3]), edepth=1, max_nodes=rng.choice([4, 15, 30]), width=4, macros=2,
                      includes=rng.random() < .4, fails=rng.choice([0, 0, 1]),
                      filters=["upper", "lower", "trim", "capitalize", "wrap", "tag", "len", "rev", "center", "wordcount", "linebreaks", "title", "indent", "truncate"],
                      nodes={"lit": 5, "expr": 6, "let": 1, "if": 1.5, "match": .7, "for": 1.5, "filter": 1, "raw": .5, "comment": .2, "call": 1, "include": 1, "fail": 2})
            if rng.random() < .3:
                f = g.hierarchy(rng.choice([1, 2]))
            else:
                pre, call = g.preamble(g.cur_dir, n_imports=0)
                g.callable = call
                f = g.new_file(pre + g.body(g.prof["depth"], 1, 5, scope=False), g.cur_dir)
            if rng.random() < .01:
                g.bulk(f.nodes)
            c = multi_case(ctx, f"c{i}", g, f, insts)
            if c is None:
                return None
            e = {}
            longest = max(len(x.nodes[k].text) if isinstance(x.nodes[k], Lit) else 0 for x in g.files for k in range(len(x.nodes))) if "bulk" in g.features else 0
            longest = max(longest, *(len(v[1] or "") for v in c.expect.values()))
            stride = 1 if longest < 120 else max(7, longest // 150)
            for (j, _), v in c.expect.items():
                for n in NAMES:
                    e[j, n] = v
                if v[0] == "ok":
                    e[j, "faults"] = ("ok", "", None)
                else:
                    ctx.add("failing_renderings")
            c.expect = e
            c.rs = c.rs.replace(f'rt::exec_as("c{i}", i, "render", &T::new(i));', f'rt::channels("c{i}", i, &T::new(i), {stride});')
            return c
        cases.append(retry(make))
    for c in cases[:3]:
        ctx.sample(show_case(c))
    shards = run_cases(ctx, cases, data_rs(insts), extra_rt=CHANNELS, nontrivial=lambda c, i, e: True, compare=compare)
    for s in shards:
        for (c, i, ch), r in s.results.items():
            if ch == "tried":
                ctx.add("renderings_with_failing_targets", int(r[1]))


run_check("C15", main)
