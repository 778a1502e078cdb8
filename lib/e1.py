"""Checks that compare generated templates with the reference interpreter."""
from common import *
from model import *
from gen import *
from multi import *
from shards import *


def interpret(f, insts, escaper="html", block=None, chan="render", names=None):
    exp = {}
    for j, d in enumerate(insts):
        I = Interp(d, escaper)
        if names:
            I.esc_names = names
        st, text, trace = I.render(f, block)
        # code around a block may be evaluated, but is not shown
        exp[(j, chan)] = (st, text, trace if block is None else None)
    return exp


def mkcase(ctx, name, f, files, insts, attrs="", escaper="html", blocks=(), features=(), names=None):
    """A case that renders file `f` (and some of its blocks on their own)"""
    structs = [struct_rs("T", f'path = "{f.path}"' + attrs)]
    body = run_rs(name, "T", len(insts))
    exp = interpret(f, insts, escaper, names=names)
    for i, b in enumerate(blocks):
        structs.append(struct_rs(f"B{i}", f'path = "{f.path}", block = "{b}"' + attrs))
        body += run_rs(name, f"B{i}", len(insts), f"block-{b}")
        exp.update(interpret(f, insts, escaper, b, f"block-{b}", names=names))
    info = "\n".join(f"--- {p}\n{t}" for p, t in files.items())
    for k in features:
        ctx.add("uses_" + k)
    return Case(name, files, module_rs(structs, body), exp, info)


def retry(make, tries=60):
    """Models whose output explodes or is not specified are drawn again."""
    for i in range(tries):
        try:
            c = make(i)
        except OverflowError:
            continue
        if c is not None:
            return c
    raise CheckError("cannot generate a case")


def show_case(c):
    exp = {f"{k}": v for k, v in list(c.expect.items())[:2]}
    return {"files": c.files, "expected": {k: [v[0], v[1], v[2]] for k, v in exp.items()}}


def multi_case(ctx, name, g, f, insts, attrs="", escaper="html", blocks=(), syn=None, whitespace="preserve", names=None):
    """A case from a generator of several files; None if its white space is not specified"""
    files = g.texts(syn, whitespace)
    if g.ambiguous:
        return None
    return mkcase(ctx, name, f, files, insts, attrs, escaper, blocks, sorted(g.features), names)
