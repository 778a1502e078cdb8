import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from harness import run_rt


def main(ctx):
    ctx.rules.append("random values (also from serializers that split and hide what they write, and typed ones) through the filter and templates: the text must parse to the value and have none of & < > '; in attributes and "
                     "scripts of a page as well; failing serializers must lead to errors; every Unicode character; non-trivial if something is encoded")
    run_rt(ctx, ctx.scale(6000, 80000))


run_check("C12", main)
