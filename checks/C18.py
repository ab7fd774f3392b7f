#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
Q = TIER == "quick"
CAD = "--sat-solver cadical"
INC = [os.path.join(REPO, "ir/adt")]
J = []
F = {"push_left": ["deq_alloc_left", "deq_append_block_left_priv", "deq_shrink_left", "deq_left_end_block_empty_priv", "deq_left_end", "deq_empty"],
     "push_right": ["deq_alloc_right", "deq_append_block_right_priv", "deq_shrink_right", "deq_right_end_block_empty_priv", "deq_right_end_obj", "deq_empty"],
     "pop_left": ["deq_shrink_left", "deq_left_end_block_empty_priv", "deq_left_end"], "pop_right": ["deq_shrink_right", "deq_right_end_block_empty_priv", "deq_right_end_obj"],
     "pointer": ["deq_push_pointer_left", "deq_push_pointer_right", "deq_pop_pointer_left", "deq_pop_pointer_right"]}
PTR = F.pop("pointer")
for l, r in [(0, 0), (8, 8), (0, 8), (0, 2024), (2016, 2024), (2024, 2024), (8, 2016)]:
    for nb in (1, 2) if r > 8 and l < 2024 else (1,):
        J.append(Job("pointer_%d_%d_%d" % (nb, l, r), "queue.c", entry="h_pointer", functions=PTR, defs=["NB=%d" % nb, "L0=%d" % l, "R0=%d" % r], unwind=8, solver=CAD, timeout=600, search_time=8, incs=INC, bounded="these ends of the blocks"))
for n, f in F.items():
    for nb in (1, 2, 3):
        J.append(Job("%s_%d" % (n, nb), "queue.c", entry="h_" + n, functions=f, defs=["NB=%d" % nb], unwind=8, solver=CAD, timeout=600, search_time=8, incs=INC))
for l in (0, 1):
    for f in (0, 1):
        J.append(Job("deq_init_%d%d" % (l, f), "queue.c", entry="h_deq_init", functions=["deq_init", "deq_free", "deq_pointer_iter_init", "deq_pointer_iter_next"], defs=["NB=1", "LEFT=%d" % l, "FRONT=%d" % f], unwind=8, solver=CAD, timeout=600, incs=INC))
# priorities: every int, or (longer histories) every value up to 3 bits - only their order matters
for n, p, m, w in [(1, 1, 1, 32), (2, 1, 2, 32), (3, 1, 0, 32), (3, 1, 1, 32), (5, 0, 0, 2), (6, 1, 0, 1)] + ([] if Q else [(4, 1, 0, 32), (4, 2, 2, 3), (5, 1, 1, 3), (6, 1, 0, 3)]):
    J.append(Job("pqueue_%d_%d_%d_%d" % (n, p, m, w), "queue.c", entry="h_pqueue", functions=["pqueue_put", "pqueue_pop_front", "pqueue_heapify", "pqueue_sift_up", "pqueue_length", "pqueue_empty"],
                 defs=["N=%d" % n, "P1=%d" % p, "M=%d" % m, "PB=%d" % w], unwind=14, checks=["--no-standard-checks", "--bounds-check"], solver=CAD, timeout=600 if Q else 3000, search_time=8, incs=INC, weight=9,
                 bounded="%d puts, %d pops, %d puts, all popped; priorities of %d bits" % (n, p, m, w)))
if __name__ == "__main__":
    sys.exit(main("C18", J, level="other", trusted=["xmalloc/xrealloc: malloc/realloc that do not fail"],
        assumptions=["deque: an element is popped with the size it was pushed with (its documented use)", "heap histories are bounded by the listed numbers of puts and pops"],
        explanation="deque: every operation on every well-formed state (the place of one byte of the content followed, all others alike; that no byte is written follows from the frame of the listed functions for the listed block ends only), hence every history; priority queue: every priority in the listed histories"))
