#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from treejobs import *
import trees, randtrees
Q = TIER == "quick"
CAD = "--sat-solver cadical"
FCMP = ["computed_value_Cmp_Confirm", "get_interval", "get_interval_from_tv", "compare_iv", "is_transitive", "get_negated_relation", "get_inversed_relation"]
FTREE = FCMP + ["computed_value_Cmp", "computed_value_Confirm", "value_not_null", "equivalent_node_Confirm", "transform_node_Confirm", "transform_node_Cmp"]
BOUND = "the listed expression trees (shape, relations and constants concrete); every value of their leaves"
J = []
def pair(entry, mode, shape, fns, vrp=0, facts=0, weight=1):
    return Job("%s_%s_%d" % (entry[2:], mode, shape), "opt.c", entry=entry, functions=fns, solver=CAD, checks=["--no-standard-checks"], flags=FLAGS, timeout=400, search_time=8, weight=weight,
               defs=["MODE=mode_" + mode, "SHAPE=%d" % shape, "FACTS=%d" % facts, "VRP=%d" % vrp])
for mode in (["Bs", "Bu", "Iu"] if Q else ["Bs", "Bu", "Hs", "Hu", "Is", "Iu", "P"]):
    for shape in range(9, 25):
        if Q and mode in ("Bu", "Is") and shape not in (13, 14, 15, 16, 17, 18, 19): continue
        J.append(pair("h_cmp_confirm", mode, shape, FCMP))
    for shape in (13, 15, 18, 20, 21, 22, 23, 25):
        if mode == "P" and shape == 25: continue
        if Q and mode in ("Bu", "Is") and shape not in (13, 22): continue
        J.append(pair("h_not_null", mode, shape, ["value_not_null"]))
    for shape in (1, 3, 9, 11, 13, 21):
        if Q and mode in ("Bu", "Is") and shape not in (1, 3): continue
        J.append(pair("h_confirm", mode, shape, ["computed_value_Confirm", "ir_get_possible_cmp_relations"], vrp=1, facts=1))
PER = 22
for mode in ("Bs", "Bu") if Q else ("Bs", "Bu", "Hs", "Is", "Iu"):
    s = sample(list(trees.confirm(mode)) + list(trees.confirm2(mode)), (3 if Q else 30) * PER, 3) if mode[0] == "B" else \
        sample([t for t in randtrees.trees(mode, 4000, 5, 3, 0, 0.4) if "CFM" in t and t.count("MUL") + t.count("DIV") + t.count("MOD") == 0], 8 * PER, 4)
    for i in range(0, len(s), PER):
        J.append(tree_job("trees_%s_%d" % (mode, i // PER), mode, s[i:i + PER], functions=FTREE, bounded=BOUND, timeout=400))
S = []
for mode in ("Bu", "Bs"):
    S.append(("confirm " + mode, mode, (lambda m: lambda: list(trees.confirm(m)))(mode), 0, 0, 1))
    S.append(("confirm2 " + mode, mode, (lambda m: lambda: list(trees.confirm2(m)))(mode), 0, 0, 1))
k = 0
for mode in ("Bu", "Bs", "Hs", "Hu", "Is", "Iu"):
    for depth in (2, 3):
        for facts in (0, 1):
            k += 1
            S.append(("random %s %d %d" % (mode, depth, facts), mode, (lambda *a: lambda: [t for t in randtrees.trees(*a) if "CFM" in t])(mode, 10000 if Q else 150000, SEED * 100 + k, depth, facts, 0.35), facts, 0, 1))
if __name__ == "__main__":
    sys.exit(main("C14", J, level="proof",
        trusted=["the meaning of the node kinds, in h/ghost.h: a Confirm is defined only if its relation holds", "tarval functions through their contracts (C01-C04)",
                 "known-bits facts (C11) and value-range comparison (C13) through their contracts"],
        assumptions=["integer and reference values only; Sel and Member chains of value_not_null are outside (a member of an object is taken not to be at null by the documented rule)",
                     "null-check removal in the Proj rules for Load, Store, Div uses value_not_null, whose contract is proved here; the rules themselves are not under contract"],
        explanation="decisions from one or two Confirms: every value, bound, Confirm relation and queried relation of the listed operand shapes; the other optimizer rules on trees with Confirms: a fixed selection of trees (bounded), and those selected by native screening",
        pre=Screen(S, 150 if Q else 500, FTREE)))
