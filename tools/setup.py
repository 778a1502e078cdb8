"""Checks that the toolchain is there; the checks build what they need themselves."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *

build_libs()
print("ok")
