#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from treejobs import *
import trees, randtrees
Q = TIER == "quick"
BOUND = "the listed expression trees (shape and constants concrete); every value of their leaves"
FN = ["computed_value_%s" % k for k in "Add Sub Mul And Or Eor Not Minus Shl Shr Shrs Conv Cmp Mux Proj_Div Proj_Mod Confirm".split()] + \
     ["equivalent_node_%s" % k for k in "Add Sub Mul And Or Eor Not Minus Shl Shr Shrs Conv Mux Confirm idempotent_unop neutral_zero".split()] + \
     ["transform_node_%s" % k for k in "Add Sub Mul And Or Eor Not Minus Shl Shr Shrs Conv Cmp Mux Div Mod Proj_Div Proj_Mod shift_modulo bitop_shift or_bitop_const_shift And_Or shl_shr".split()] + \
     ["transform_bitwise_distributive", "ir_mux_is_abs", "ir_is_negated_value", "ir_is_optimizable_mux", "get_negated_relation", "get_inversed_relation", "apply_binop_on_2_muxes", "apply_conv_on_mux"]
FAM = {"depth1": trees.depth1, "depth2": trees.depth2, "both": trees.both, "compare": trees.compare, "compare2": trees.compare2, "mux": trees.mux, "conv": trees.conv, "divmod": trees.divmod_}
def hard(t):  # multiplications and divisions of wide values are hard for the SAT back end
    return t.count("MUL") + t.count("DIV") + t.count("MOD") > 1
J = []
PER = 22
N = {"depth1": 2, "depth2": 3, "both": 2, "compare": 2, "compare2": 1, "mux": 2, "conv": 2, "divmod": 1} if Q else dict.fromkeys(FAM, 24)
for mode in ("Bu", "Bs"):
    for f, gen in FAM.items():
        n = N[f] * PER // 2 if Q else N[f] * PER
        s = [t for t in sample(list(gen(mode)), 3 * n, 7 if mode == "Bu" else 8) if not hard(t)][:n]
        for i in range(0, len(s), PER):
            J.append(tree_job("%s_%s_%d" % (f, mode, i // PER), mode, s[i:i + PER], functions=FN, bounded=BOUND, timeout=400))
s = sample(list(trees.boolean()), PER if Q else 600, 9)
for i in range(0, len(s), PER):
    J.append(tree_job("boolean_%d" % (i // PER), "Bu", s[i:i + PER], functions=FN, bounded=BOUND, timeout=400))
for mode in ("Bu", "Bs", "Hs", "Is", "Iu"):
    for facts in (0, 1):
        for depth in (2, 3):
            if Q and (depth == 3) != (facts == 1): continue
            c = randtrees.trees(mode, 400 if Q else 3000, 3, depth, facts)
            ok = [t for t in c if (t.count("MUL") + t.count("DIV") + t.count("MOD") == 0 if mode[0] != "B" else not hard(t)) and t.count("(") > 1]
            s = sample(ok, PER // 2 if Q else 8 * PER, 11)
            for i in range(0, len(s), PER):
                J.append(tree_job("random_%s_%d_%s%d" % (mode, depth, "facts_" if facts else "", i // PER), mode, s[i:i + PER], facts, functions=FN, bounded=BOUND, timeout=400))
S = []
for mode in ("Bu", "Bs"):
    for f, gen in FAM.items():
        S.append(("%s %s" % (f, mode), mode, (lambda g, m, f: lambda: list(g(m)) if f not in ("both", "compare2") else sample(list(g(m)), 40000, 5))(gen, mode, f), 0, 0, 1))
for mode in ("Bu", "Bs"):
    S.append(("chain " + mode, mode, (lambda m: lambda: list(trees.chain(m)))(mode), 0, 0, 1))
S.append(("boolean", "Bu", lambda: list(trees.boolean()), 0, 0, 1))
S.append(("boolean lowered", "Bu", lambda: list(trees.boolean()), 0, 2, 1))
k = 0
NR = 12000 if Q else 150000
for mode in ("Bu", "Bs", "Hs", "Hu", "Is", "Iu"):
    for depth in (2, 3, 4):
        for facts, cons, edges in ((0, 0, 1), (1, 0, 1), (0, 4, 1), (1, 39, 0)):
            if Q and depth == 4 and cons: continue
            k += 1
            S.append(("random %s %d %d %d" % (mode, depth, facts, cons), mode, (lambda *a: lambda: randtrees.trees(*a))(mode, NR, SEED * 100 + k, depth, facts), facts, cons, edges))
if __name__ == "__main__":
    sys.exit(main("C10", J, level="other",
        trusted=["node constructors: the real ones, with optimize_node through its own contract (a node of equal value)", "tarval functions through their contracts (C01-C04)",
                 "the meaning of the node kinds, in h/ghost.h", "exchange through its contract (only equal values may be exchanged)",
                 "strength reduction through its contract (C12)", "known-bits facts through their contract (C11): any sound facts"],
        assumptions=["trees whose root and operand shapes are not listed are not covered", "a value is the value of the original only where the original is defined (oversized shift amounts in modes without modulo shift are defined as tarval.h defines them)"],
        explanation="every leaf value of a fixed spread selection of expression trees; further trees are screened natively on sampled leaf values, and those for which an obligation fails natively are put to the verifier", pre=Screen(S, 80 if Q else 400, FN)))
