#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from treejobs import FLAGS
Q = TIER == "quick"
CAD = "--sat-solver cadical"
J = []
def job(name, entry, fns=("transfer", "set_bitinfo"), weight=1, timeout=300, bounded=None, unwind=40, **d):
    J.append(Job(name, "cbits.c", entry=entry, functions=list(fns), solver=CAD, checks=["--no-standard-checks"], flags=FLAGS, timeout=timeout, search_time=8, weight=weight, bounded=bounded, unwind=unwind,
                 defs=["%s=%s" % (k, v) for k, v in d.items()]))
ALL = ["Bs", "Bu", "Hs", "Hu", "Is", "Iu"]
for mono in (0, 1):
    p = "mono_" if mono else ""
    for m in (["Bs"] if mono else ["Bs", "Bu", "Hs", "Is", "Iu"]) if Q else ALL:
        M = "mode_" + m
        for o in ("Add", "Sub", "And", "Or", "Eor"):
            job(p + o + "_" + m, "h_bin", OP=o, MODE=M, RMODE=M, MONO=mono)
        for o in ("Not", "Minus"): job(p + o + "_" + m, "h_un", UOP=o, MODE=M, MONO=mono)
        for o in ("Shl", "Shr", "Shrs"):
            job(p + o + "_" + m, "h_bin", OP=o, MODE=M, RMODE="mode_Iu", MONO=mono)
        if m[0] == "B": job(p + "Mul_" + m, "h_bin", OP="Mul", MODE=M, RMODE=M, MONO=mono)
        job(p + "Cmp_" + m, "h_cmp", MODE=M, MONO=mono)
        job(p + "Confirm_" + m, "h_confirm", MODE=M, MONO=mono)
        job(p + "Mux_" + m, "h_mux", MODE=M, MONO=mono)
        job(p + "Phi_" + m, "h_phi", MODE=M, MONO=mono)
        if Q and m == "Hs": continue
        if mono: continue
        job("Const_" + m, "h_const", MODE=M)
        for n in (0, 1): job("Tuple%d_%s" % (n, m), "h_tuple", MODE=M, NUM=n)
        for n in ALL:
            if n != m and (not Q or m[0] == "B" or n[0] == "B"): job("Conv_%s_%s" % (m, n), "h_conv", MODE=M, RMODE="mode_" + n)
for n in (0, 1): job("flow%d" % n, "h_flow", NUM=n)
for o in ("And", "Or", "Eor"): job(o + "_b", "h_bin", OP=o, MODE="mode_b", RMODE="mode_b")
job("Not_b", "h_un", UOP="Not", MODE="mode_b"); job("Mux_b", "h_mux", MODE="mode_b"); job("Phi_b", "h_phi", MODE="mode_b")
if __name__ == "__main__":
    sys.exit(main("C11", J, level="proof",
        trusted=["the meaning of the node kinds, in h/ghost.h", "tarval functions through their contracts (C01-C04)"],
        assumptions=["the worklist of constbits_analyze (which node is visited again) is not under contract: only that a claim is final is assumed of it",
                     "float and reference operands claim nothing (no information), as in the code"],
        explanation="one obligation set per operation and mode: every operand value and every claim that holds for it; monotonicity of the transfer function likewise"))
