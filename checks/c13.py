import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from harness import run_rt


def main(ctx):
    ctx.rules.append("random texts in random splittings, numbers and every Unicode character through urlencode and urlencode_strict, called and in pages: decoding must give the value, characters of the "
                     "unreserved set (and `/`) are never encoded, others always; non-trivial if something is encoded")
    run_rt(ctx, ctx.scale(20000, 300000))


run_check("C13", main)
