#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
RB = "rbitset_"
F = {"single": ["rbitset_set", "rbitset_clear", "rbitset_flip", "rbitset_is_set"],
     "bulk": [RB + x for x in "and or andnot xor copy set_all clear_all flip_all".split()],
     "range": ["rbitset_set_range"], "query": ["rbitset_is_empty", "rbitset_contains", "rbitsets_have_common", "rbitsets_equal", "rbitset_popcount"],
     "next": ["rbitset_next_max", "rbitset_next"], "prev": ["rbitset_prev"], "minus1": ["rbitset_minus1"],
     "bs_single": ["bitset_set", "bitset_clear", "bitset_flip", "bitset_is_set", "bitset_init", "bitset_size"],
     "bs_bulk": ["bitset_" + x for x in "and or andnot xor copy set_all clear_all flip_all".split()] + ["rbitset_copy_to_bitset"],
     "bs_minus1": ["bitset_minus1"], "bs_range": ["bitset_mod_range"],
     "bs_query": ["bitset_is_empty", "bitset_contains", "bitset_intersect", "bitset_popcount"],
     "bs_iter": ["bitset_next_set", "bitset_next_clear", "bitset_prev_set", "bitset_prev_clear"]}
# sizes: quick = the word boundaries and a few inner ones; thorough = every size up to 130
GROUPS = [(0, 2), (31, 33), (40, 40), (63, 65), (96, 97)] if TIER == "quick" else [(x, x + 4) for x in range(0, 130, 5)]
SIZES = ",".join("%d..%d" % g for g in GROUPS)
J = []
for n, f in F.items():
    for lo, hi in GROUPS:
        us = ["h_%s.0:%d" % (n, hi - lo + 2)] + ["%s.0:%d" % (n, hi + 2) for n in [n] if n in ("query", "minus1", "bs_query", "bs_minus1")]
        J.append(Job("%s_%d_%d" % (n, lo, hi), "bitset.c", entry="h_" + n, functions=f, unwind=hi // 32 + 4, unwindset=us, unwind_cap=64,
             defs=["LO=%d" % lo, "HI=%d" % hi], bounded="set sizes (bits) " + SIZES, weight=hi, search_time=8))
J.append(Job("bs_foreach", "bitset.c", entry="h_bs_foreach", functions=["bitset_foreach", "bitset_foreach_clear", "bitset_foreach_rev", "bitset_foreach_clear_rev"],
             unwind=6, defs=["LO=0", "HI=4"], bounded="iteration over sets of 0..4 bits", weight=1000))
if __name__ == "__main__":
    sys.exit(main("C16", J, level="other", trusted=["CBMC's model of __builtin_popcount/__builtin_ctz"], explanation="every content of sets of the listed sizes; the size is bounded, so nothing here is counted as proved"))
