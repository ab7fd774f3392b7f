#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from treejobs import *
import trees, randtrees
Q = TIER == "quick"
CAD = "--sat-solver cadical"
FN = ["ir_get_possible_cmp_relations", "get_inversed_relation", "is_relation", "get_commutative_other_op"]
J = [Job("algebra", "opt.c", entry="h_algebra", functions=["get_negated_relation", "get_inversed_relation"], solver=CAD, checks=["--no-standard-checks"], flags=FLAGS, defs=["TVINT"])]
def pair(entry, mode, shape, fns, vrp=0, facts=1, weight=1):
    return Job("%s_%s_%d" % (entry[2:], mode, shape), "opt.c", entry=entry, functions=fns, solver=CAD, checks=["--no-standard-checks"], flags=FLAGS, timeout=400, search_time=8, weight=weight,
               defs=["MODE=mode_" + mode, "SHAPE=%d" % shape, "FACTS=%d" % facts, "VRP=%d" % vrp])
for mode in (["Bs", "Bu", "Is", "Iu"] if Q else ["Bs", "Bu", "Hs", "Hu", "Is", "Iu", "P"]):
    for shape in list(range(13)) + [15, 17]:
        if mode == "P" and shape in (5, 6, 7, 8): continue
        J.append(pair("h_possible", mode, shape, FN, vrp=1))
if __name__ == "__main__":
    sys.exit(main("C08", J, level="proof",
        trusted=["the meaning of the node kinds, in h/ghost.h", "tarval functions through their contracts (C01-C04)",
                 "known-bits facts (C11) and value-range comparison (C13) through their contracts: any sound fact; facts of And and Confirm nodes: those derived in h/opt.c from sound facts of their operands"],
        assumptions=["float operands (NaN, unordered) are outside: the ghost environment has no float values"],
        explanation="negation and inversion: all 16 relations and 4 outcomes; possible relations: every value, constant, sound fact and Confirm relation of the listed operand shapes"))
