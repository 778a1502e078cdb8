import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from corpus import *
from harness import run_rt


def main(ctx):
    ctx.rules.append("templates printed from random models (default and random delimiters), mutated, cut, spliced, mixed with other delimiters; random tokens and texts; every construct of the language repeated "
                     "or nested 1 to 30000 times (thorough: 300000), closed, unclosed and with one closing tag too few or too many, also mixed: parsing, printing and dropping the tree must end, without a panic, within "
                     "8 MB of stack, 4 GB of memory and linear time, twice with the same result; a case is a text")
    p = corpus_file(ctx, ctx.scale(3000, 10000))
    run_rt(ctx, ctx.scale(40000, 500000), args=[p], mem_kb=4_000_000, stack_kb=8192)


run_check("C17", main)
