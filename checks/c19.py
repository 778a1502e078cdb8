import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from corpus import *
from harness import run_rt


def main(ctx):
    ctx.rules.append("sources printed from random trees (default and random delimiters, random and minimal spacing): the tree of the parser must be the one the source was printed from, for all spellings; "
                     "of these and of accepted mutations, every slice must be of the source, in its order, the reprint must be read as the same tree, and literals, comments and the tokens of every tag "
                     "(found by an independent scanner) must be those of the tree; a case is an accepted text, non-trivial if it has several nodes")
    p = corpus_file(ctx, ctx.scale(12000, 60000))
    run_rt(ctx, ctx.scale(40000, 400000), args=[p])


run_check("C19", main)
