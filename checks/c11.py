import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from harness import run_rt


def main(ctx):
    ctx.rules.append("every text filter on random texts (white space, multi-byte characters, line breaks, borders of sizes) in random splittings, as value, reference and in templates, random chains of "
                     "filters, join, abs, conversions and sizes of numbers, against reference functions; a case is (filter, result), non-trivial if the filter changes its input")
    run_rt(ctx, ctx.scale(4000, 60000))


run_check("C11", main)
