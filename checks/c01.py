import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from harness import run_rt


def main(ctx):
    ctx.rules.append("values displayed by arbitrary sequences of formatter calls through templates (text, attributes, loops, match, filters, macros, blocks, calls), "
                     "the escape API and many types: the output must decode to the value, with character references for & < > \" ' only, and have no such character itself; "
                     "all strings of up to 4 (thorough: 5) characters over a 10 letter alphabet in all splittings, every Unicode character, special characters at every offset; "
                     "a case is (position, value), non-trivial if the value has a special character")
    run_rt(ctx, ctx.scale(12000, 120000), parts=8)


run_check("C01", main)
