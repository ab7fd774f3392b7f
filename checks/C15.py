#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
J = []
for e, f in [("popcount", ["popcount"]), ("nlz", ["nlz"]), ("ntz", ["ntz"]), ("log2", ["log2_floor", "log2_ceil"]),
             ("po2", ["floor_po2", "ceil_po2", "is_po2_or_zero"]), ("round_up2", ["round_up2"])]:
    J.append(Job(e, "bitfiddle.c", entry="h_" + e, functions=f, unwind=34))
if __name__ == "__main__":
    sys.exit(main("C15", J, trusted=["CBMC's model of __builtin_popcount/__builtin_clz/__builtin_ctz"],
                  explanation="loop-free or completely unwound; every 32-bit input"))
