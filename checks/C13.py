#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from treejobs import FLAGS
Q = TIER == "quick"
J = []
def job(name, entry, fns=("vrp_update_node", "vrp_get_or_set_info"), weight=1, timeout=300, **d):
    J.append(Job(name, "vrp.c", entry=entry, functions=list(fns), solver="--sat-solver cadical", checks=["--no-standard-checks"], flags=FLAGS, timeout=timeout, search_time=8, weight=weight,
                 defs=["%s=%s" % (k, v) for k, v in d.items()]))
ALL = ["Bs", "Bu", "Hs", "Hu", "Is", "Iu"]
for m in (["Bs", "Bu", "Is"] if Q else ALL):
    M = "mode_" + m
    job("cmp_" + m, "h_cmp", fns=["vrp_cmp", "vrp_get_info"], MODE=M)
    for first in (0, 1):
        p = ("first_" if first else "again_")
        for o in ("Add", "Sub", "And", "Or", "Eor"): job(p + o + "_" + m, "h_bin", OP=o, MODE=M, FIRST=first)
        for o in ("Shl", "Shr", "Shrs"):
            job(p + o + "_" + m, "h_shift", OP=o, MODE=M, FIRST=first)
            if first: job("var_" + o + "_" + m, "h_bin", OP=o, MODE=M, RMODE="mode_Iu", FIRST=first)
        job(p + "Not_" + m, "h_un", MODE=M, FIRST=first)
        job(p + "Id_" + m, "h_id", MODE=M, FIRST=first)
        job(p + "Const_" + m, "h_const", MODE=M, FIRST=first)
        job(p + "other_" + m, "h_other", MODE=M, FIRST=first)
        for n in (2, 3):
            if n == 2 or first == 0: job(p + "Phi%d_%s" % (n, m), "h_phi", MODE=M, NP=n, FIRST=first)
        for n in ALL:
            if n != m and (not Q or (n[0] != "H" and not first)): job(p + "Conv_%s_%s" % (m, n), "h_conv", MODE=M, RMODE="mode_" + n, FIRST=first)
    for c in (0, 1): job("Confirm%d_%s" % (c, m), "h_confirm", MODE=M, CONSTB=c, FIRST=1)
if __name__ == "__main__":
    sys.exit(main("C13", J, level="proof",
        trusted=["the meaning of the node kinds, in h/ghost.h", "tarval functions through their contracts (C01-C04)"],
        assumptions=["the worklist of set_vrp_data is not under contract; facts are only ever made from facts that hold, so the order of visits does not matter for soundness",
                     "the antirange of an Id is the one of its operand (proved to be kept); other nodes than Confirm and Id have none (proved)"],
        explanation="one obligation set per operation and mode: every operand value and every facts that hold for operands and node"))
