import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *
import places
from syntaxes import *
from reject import reject_cases

def main(ctx):
    ctx.rules.append("random accepted sets of delimiters (multi-byte, words, overlapping ones, some default ones), each used by several random template sets as default syntax or by name; "
                     "the rendering must be what the reference interpreter yields for the same tree; constructs with other delimiters in all pairs of places of other constructs. Unacceptable definitions must be compile errors")
    insts = instances(ctx.rng("data"), 2)
    cases = []
    configs = {}
    tabs = {}
    for j in range(ctx.scale(48, 240)):
        rng = ctx.rng(f"syn{j}")
        tab = {f"s{k}": rand_syntax(rng) for k in range(6)}
        default = rng.choice(sorted(tab) + [None])
        configs[f"cfg{j}.toml"] = toml(tab, default)
        tabs[f"cfg{j}.toml"] = (tab, default)
    for i in range(ctx.scale(2400, 16000)):
        def make(t):
            rng = ctx.rng(f"{i}/{t}")
            cfg = rng.choice(sorted(tabs))
            tab, default = tabs[cfg]
            name = rng.choice(sorted(tab) + ["default"] + ([default] if default else []))
            s = tab.get(name, DEFAULT)
            g = SynGen(rng, f"c{i}", varied=rng.random() < .4, trace=.05, ws=rng.choice([0, .3]), esc=.05, depth=2, edepth=1, max_nodes=30, width=4, space=.2, macros=2, imports=1, includes=True, floats=.4,
                       lit=rng.choice(["plain", "ws"]),
                       nodes={"lit": 8, "expr": 6, "let": 2, "if": 2, "match": 1, "for": 2, "decl": .3, "filter": .7, "raw": 1, "comment": 1.5, "call": 1, "include": 1, "break": .3})
            g.set_syntax(s)
            if rng.random() < .3:
                f = g.hierarchy(rng.choice([1, 2, 3]))
            else:
                pre, call = g.preamble(g.cur_dir)
                g.callable = call
                f = g.new_file(pre + g.body(g.prof["depth"], 2, 6, scope=False), g.cur_dir)
            syn = {SHORT[k]: v for k, v in s.items()}
            attrs = f', config = "{cfg}"'
            if name != (default or "default") or rng.random() < .2:
                attrs += f', syntax = "{name}"'
            c = multi_case(ctx, f"c{i}", g, f, insts, attrs, syn=syn)
            if c:
                c.info += "\n" + json.dumps(s, ensure_ascii=False)
            return c
        cases.append(retry(make))
    marks = {"block_start": "[%", "block_end": "%]", "expr_start": "[=", "expr_end": "=]", "comment_start": "[#", "comment_end": "#]"}
    configs["places.toml"] = toml({"places": marks}, "places")
    swap = {DEFAULT[k]: v for k, v in marks.items()}
    probes = [p for k in ("lets", "loops", "calls", "filters", "spaces") for p in places.PROBES[k]]
    for i in range(ctx.scale(1, 6)):
        cases += places.probe_cases(ctx.rng(f"places{i}"), f"pl{i}", probes, attrs=', config = "places.toml"', text=lambda t: re.sub("|".join(map(re.escape, swap)), lambda m: swap[m[0]], t))
    ctx.add("pairs_of_places", len(places.PLACES) ** 2)
    for c in cases[:3]:
        ctx.sample(show_case(c))
    run_cases(ctx, cases, data_rs(insts), configs=configs, nontrivial=lambda c, i, e: bool(e[1]))
    ctx.extra["syntaxes"] = sum(len(t) for t, _ in tabs.values())

    # definitions that must be rejected
    bad = []
    rng = ctx.rng("bad")
    n = 0
    while len(bad) < ctx.scale(120, 800):
        s = rand_syntax(rng)
        how = rng.choice(["short", "space", "op", "prefix", "same"])
        k = rng.choice(KEYS)
        if how == "short":
            s[k] = rng.choice(["", "x", "%"])
        elif how == "space":
            s[k] = rng.choice(["{ %", " {%", "{%\t", "a\u00a0b", "x\u2003"])
        elif how == "op":
            s[k] = rng.choice(OPS)
        else:
            a, b = rng.sample([k for k in KEYS if k.endswith("start")], 2)
            s[a] = s[b] + ("" if how == "same" else rng.choice(["x", "-", "%", "\u00e9"]))
        if not why_bad(s):
            continue
        cfg = f"bad{n}.toml"
        used = rng.random() < .5
        bad.append((f"bad{n}", cfg, toml({"z": s}, "z" if used else None), how, s))
        n += 1
    extra = [("dup", toml({"a": DEFAULT}) + toml({"a": DEFAULT})), ("defdup", toml({"default": DEFAULT})), ("nodef", '[general]\ndefault_syntax = "nope"\n'),
             ("noname", "[[syntax]]\nblock_start = '<%'\n"), ("type", "[[syntax]]\nname = 'x'\nblock_start = 5\n")]
    for nm, text in extra:
        bad.append(("bad_" + nm, f"bad_{nm}.toml", text, nm, {}))
    rc = [Case(nm, {}, f'#[derive(askama::Template)]\n#[template(source = "", ext = "txt", config = "{cfg}")]\npub struct T {{}}\npub fn run() {{}}\n', {}, f"{how} {s}\n{text}")
          for nm, cfg, text, how, s in bad]
    rc.append(Case("bad_attr", {}, '#[derive(askama::Template)]\n#[template(source = "", ext = "txt", syntax = "nope")]\npub struct T {}\npub fn run() {}\n', {}, "unknown syntax"))
    reject_cases(ctx, rc, configs={cfg: text for _, cfg, text, _, _ in bad})


run_check("C21", main)
