import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from corpus import *
from harness import run_rt
from reject import *


def spoil(rng, text, spans):
    """(text with junk in one of its tags, offset of the tag, offset of the junk) in characters, or None"""
    b = text.encode()
    a, e = rng.choice(spans)
    tag = b[a:e].decode()
    if tag.startswith("{#") or any(c in tag for c in "\"'!") or "endraw" in tag or len(tag) < 6:
        return None
    i = rng.randint(3, len(tag) - 3)
    junk = rng.choice(["\x01", "`", "\x7f"])
    pre = len(b[:a].decode())
    return text[:pre + i] + junk + text[pre + i:], pre, pre + i


def pos(text, at):
    row = text.count("\n", 0, at)
    return row, at - (text.rfind("\n", 0, at) + 1)


def derive_errors(ctx):
    """The error of the derive macro names the broken file, wherever it is used from, and a place in it"""
    insts = instances(ctx.rng("data"), 1)
    cases, facts = [], {}
    n = ctx.scale(320, 3000)
    while len(cases) < n:
        i = len(cases)
        rng = ctx.rng(f"d{i}/{len(facts)}/{ctx.extra.get('tries', 0)}")
        ctx.add("tries")
        name = f"c{i}"
        g = Multi(rng, name, depth=2, edepth=1, max_nodes=20, width=4, space=.2, macros=1, imports=1, includes=True, floats=.4, lit="ws", ws=.2, esc=.05, trace=0,
                  nodes={"lit": 8, "expr": 6, "let": 2, "if": 2, "match": 1, "for": 2, "filter": .7, "raw": .5, "comment": 1.5, "call": 1, "include": 2, "break": .3})
        try:
            if rng.random() < .5:
                f = g.hierarchy(rng.choice([1, 2, 3]))
            else:
                pre, call = g.preamble(g.cur_dir)
                g.callable = call
                f = g.new_file(pre + g.body(2, 2, 6, scope=False), g.cur_dir)
            files = g.texts()
            victim = rng.choice(g.files)
            E = Emit(None, g.sp)
            E.nodes(victim.nodes)
            text = E.source() + victim.trailing
            if not E.spans:
                continue
            bad = spoil(rng, text, E.spans)
        except OverflowError:
            continue
        if not bad:
            continue
        text, a, j = bad
        place = g.place_of(victim.root, victim.path)
        files[place] = text
        src = f'path = "{f.path}"'
        inline = f is victim and rng.random() < .3
        if inline:
            src = f"source = {rs_str(text)}, ext = \"html\""
        c = Case(name, files, module_rs([struct_rs("T", src)], ""), {}, "\n".join(f"--- {p}\n{t}" for p, t in files.items()) + f"\nbroken: {victim.path} at {pos(text, j)}")
        facts[name] = (None if inline else place, text, a, j)
        cases.append(c)
    # the compiler runs in the crate, above of it, below of it, and beside the templates
    res = classify(ctx, cases, data_rs(insts), cwds=[".", "..", "templates", "src/a/b", "/", "templates_x", "templates/a", "."])
    for c in cases:
        v = res[c.name]
        path, text, a, j = facts[c.name]
        ctx.count(("derive", c.name, text))
        ctx.add("derive_errors")
        bad = None
        msgs = [m + "\n" + "\n".join(n) for m, n in v.errors + v.panics]
        if v.crash or v.panics:
            bad = v.crash or f"the derive macro panicked: {v.panics[0]}"
        elif not msgs:
            bad = "is not rejected"
        else:
            found = False
            for m in msgs:
                if path is None:
                    r = re.search(r"row (\d+), column (\d+)", m)
                else:
                    r = re.search(r"--> (.*):(\d+):(\d+)$", m, re.M)
                    if r:
                        # the directories the file has in common with the working directory may be left out
                        real, base = os.path.join(v.dir, "templates", path), v.cwd
                        while base != "/" and os.path.normpath(os.path.join(base, r.group(1))) != real:
                            base = os.path.dirname(base)
                        ctx.add("files_named")
                        if os.path.normpath(os.path.join(base, r.group(1))) != real:
                            bad = f"the error is reported for {r.group(1)} (in {v.cwd}), not for {path} (in {v.dir}/templates)"
                        r = re.search(r":(\d+):(\d+)$", r.group(0))
                if not r:
                    continue
                found = True
                row, col = int(r.group(1)) - 1, int(r.group(2))
                if not pos(text, a) <= (row, col) <= pos(text, j):
                    bad = f"the error is reported at row {row}, column {col} (from 0), but the tag begins at {pos(text, a)} and the junk is at {pos(text, j)}"
                lines = text.split("\n")
                rest = "\n".join(lines[row:])[col:]
                first = re.sub(r"[^ -~].*", "", rest[:20].split("\\")[0].split('"')[0])
                if first and first.split("\n")[0] not in m:
                    bad = f"the error does not show the text at its place: {first!r}"
            if not found:
                bad = f"no error names the place: {msgs}"
        if bad:
            ctx.violation(f"{c.name}: {bad}\n{c.info}\n{msgs}", c.replay({"data.rs": data_rs(insts)}), c.ident)


def main(ctx):
    ctx.rules.append("templates printed from random models, ended within a tag, with characters that are part of no tag within a tag, or mutated: what is broken must not be accepted, every error must name a position of the text, "
                     "show the text from there on and the file, point neither in front of the broken tag nor behind the first character that is part of no template; the same of the errors of the derive macro for templates of several "
                     "files one of which is broken; a case is a text")
    p = corpus_file(ctx, ctx.scale(6000, 20000))
    run_rt(ctx, ctx.scale(50000, 600000), args=[p])
    derive_errors(ctx)


run_check("C18", main)
