#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
CAD = "--sat-solver cadical"
Q = TIER == "quick"
FN = {"div": ["arch_dep_replace_div_by_const", "replace_div_by_mulh", "magic", "compute_unsigned_magic_info", "get_magic_info", "tv_ld2", "allow_Mulh"],
      "mod": ["arch_dep_replace_mod_by_const", "replace_div_by_mulh", "magic", "compute_unsigned_magic_info", "get_magic_info", "tv_ld2", "allow_Mulh"],
      "mul": ["arch_dep_replace_mul_with_shifts", "do_decomposition", "decompose_mul", "decompose_simple_cases", "basic_decompose_mul", "calculate_gain",
              "complement_condensed", "condensed_to_value", "value_to_condensed", "evaluate_insn", "build_graph"]}
J = []
def add(op, mode, cs, every, extra=(), bounded=None, tag="", unwind=40):
    # a few constants per proof: the constants of one job are independent obligations
    for i in range(0, len(cs), every):
        part = cs[i:i + every]
        J.append(Job("%s_%s%s_%s" % (op, mode, tag, part[0]), "arch.c", entry="h_" + op, functions=FN[op], unwind=unwind, unwind_cap=160, solver=CAD,
            defs=["TVINT", "MODE=mode_" + mode, "CLIST=" + ",".join("%dL" % c for c in part)] + list(extra), checks=["--no-standard-checks"],
            flags=["--object-bits", "12"], timeout=700, search_time=6, weight={"B": 1, "H": 6, "I": 3}[mode[0]] * len(part), bounded=bounded))
ALLS, ALLU = list(range(-128, 128)), list(range(256))
B8 = "the listed constants only; every operand value"
if Q:
    S8 = {"div": [1, -1, 2, -3, 7, -7, 10, -16, 100, 125, -127, -128], "mod": [1, -1, 2, 3, -7, 10, -16, -128], "mul": [0, 1, -1, 3, 6, 7, -7, 11, 29, 100, 127, -128]}
    U8 = {"div": [0, 1, 2, 3, 7, 10, 14, 100, 128, 129, 254, 255], "mod": [0, 1, 3, 7, 28, 64, 129, 255], "mul": [1, 2, 5, 7, 10, 45, 100, 119, 128, 129, 251, 255]}
    n = 3
else:
    S8, U8, n = dict.fromkeys(FN, ALLS), dict.fromkeys(FN, ALLU), 4
    B8 = None
for op in ("div", "mod", "mul"):
    add(op, "Bs", S8[op], n, ["SUBS=1", "SWAP=0"] if op == "mul" else ["NOREM=0"] if op == "div" else [], B8)
    add(op, "Bu", U8[op], n, ["SUBS=1", "SWAP=1"] if op == "mul" else [], B8)
add("div", "Bs", [2, 4, -4, -64, 7, -128, 1, -1] if Q else ALLS, 8, ["SUBS=1", "SWAP=0", "NOREM=1"], B8, "_exact")
add("mul", "Bs", [7, 11, -6, 127, -128] if Q else ALLS, 5, ["SUBS=0", "SWAP=1"], B8, "_nosub")
for op in ("div", "mod", "mul"):
    add(op, "Hs", [3, -8] if Q else [2, 3, 7, 10, -5, 16, -16, -1, 255, 256, 1000, 32767, -32768, -32767], 1 if Q else 2, ["SUBS=1", "SWAP=0"], "the listed constants only; every operand value")
    add(op, "Hu", [10, 4096] if Q else [2, 3, 7, 10, 14, 28, 4096, 255, 641, 32767, 32768, 65535], 1 if Q else 2, ["SUBS=1", "SWAP=0"], "the listed constants only; every operand value")
add("mul", "Is", [3, 10, 255, -7, 65537, -2147483648], 2, ["SUBS=1", "SWAP=0"], "the listed constants only; every operand value")
add("mul", "Iu", [7, 100, 2147483648, 4294967295], 2, ["SUBS=1", "SWAP=1"], "the listed constants only; every operand value")
add("div", "Is", [1, 2, -1, -4, 65536, -2147483648], 6, (), "the listed constants only; every operand value", "_po2")
add("mod", "Is", [1, 2, -1, -4, 65536, -2147483648], 6, (), "the listed constants only; every operand value", "_po2")
add("div", "Iu", [1, 2, 65536, 2147483648], 4, (), "the listed constants only; every operand value", "_po2")
W = "the listed constants only, and of the operands only the extreme points at which a multiply-high replacement fails first"
add("div", "Is", [3, 5, 7, -7, 10, 125] if Q else [3, -3, 5, 6, 7, -7, 9, 10, -10, 11, 12, 13, 14, 15, 25, 100, 125, -125, 641, 1000, 3600, 715827883, 1000000007, 2147483647, -2147483647], 2, ["WORST"], W, "_magic", 80)
add("div", "Iu", [3, 5, 7, 10, 14, 641] if Q else [3, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 21, 25, 28, 100, 641, 1000, 3600, 6700417, 1000000007, 2147483649, 2863311531, 4294967294, 4294967295], 2, ["WORST"], W, "_magic", 80)
add("mod", "Is", [7, -10], 2, ["WORST"], W, "_magic", 80)
add("mod", "Iu", [7, 10], 2, ["WORST"], W, "_magic", 80)
if __name__ == "__main__":
    sys.exit(main("C12", J, level="other", trusted=["node constructors: the real ones, optimize_node through its contract (a node of equal value, C10)", "tarval functions through their contracts (C01-C04)",
        "the meaning of the node kinds, in h/ghost.h", "exchange through its contract (only equal values may be exchanged)"],
      explanation="every operand value for 8-bit modes and the listed constants%s; selected constants for 16 and 32 bits" % ("" if Q else " (all of them)")))
