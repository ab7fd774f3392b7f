#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
      "anchors": {"files": files,
                  "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                  "mechanism": [dict(name=n, where=w) for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

prop("C01", "Target integer arithmetic is exact modulo 2^n",
 "For every integer mode of up to 64 bits and all values of it, the compile-time value operations (add, sub, neg, mul, div, mod, divmod, and, or, xor, andnot, ornot, not, abs) return exactly the mathematical result reduced into the mode's two's-complement range, with division truncating towards zero; the bitwise operations on the boolean mode are the logical ones. Division or modulo by zero is reported as a bad value instead of producing a number, the operands are never altered, and when the library is told to detect integer overflow (instead of wrapping, the default) add, sub, mul and neg report a bad value exactly when the mathematical result does not fit the mode.",
 ["inputs"], "all operand pairs of every integer mode size and signedness",
 "tarval_calc/strcalc check a few dozen hand-picked pairs out of 2^128 per operation.",
 ["ir/tv/strcalc.c", "ir/tv/tv.c"],
 [("sc_add/sc_sub/sc_mul/sc_div/sc_mod/sc_divmod/sc_and.. byte-string arithmetic", "ir/tv/strcalc.c"),
  ("get_int_tarval / carry extension of results", "ir/tv/tv.c")],
 ["tarval_add", "tarval_sub", "tarval_mul", "tarval_div", "tarval_mod", "tarval_divmod", "tarval_neg", "tarval_not", "tarval_and", "tarval_or", "tarval_eor"],
 [("sc_word buffer", "two's complement little-endian byte string, wider than every mode and kept sign/zero extended to its full width", "ir/tv/strcalc.c")])

prop("C02", "Target integer shifts follow the mode's shift semantics",
 "For every integer mode of whole bytes (up to 64 bits) and every value, compile-time left shift, logical right shift and arithmetic right shift by any non-negative amount give the shifted value reduced to the mode, where the amount is first reduced by the mode's modulo-shift when it has one, and otherwise amounts of at least the width give zero (or the sign fill for arithmetic shifts). Shifting by a value and by a plain number agree.",
 ["inputs"], "all values and all shift amounts of every integer mode",
 "The unit tests try a handful of constants and amounts; boundary amounts (0, width-1, width, modulo) for each size are mostly untested.",
 ["ir/tv/strcalc.c", "ir/tv/tv.c"],
 [("sc_shlI/sc_shrI/sc_shrsI", "ir/tv/strcalc.c"), ("tarval_shl/shr/shrs(_unsigned)", "ir/tv/tv.c")],
 ["tarval_shl", "tarval_shr", "tarval_shrs", "tarval_shl_unsigned", "tarval_shr_unsigned", "tarval_shrs_unsigned"])

prop("C03", "Target integer comparison and predicates agree with the number",
 "For all values of an integer mode of whole bytes (up to 64 bits), comparison returns exactly one of less, equal, greater according to the numbers they denote in the mode's signedness (and unequal when the modes differ only as documented), and the sign, zero, one, all-one, single-bit, lowest-bit, highest-bit, population-count and long-range predicates agree with that number.",
 ["inputs"], "all pairs of values of every integer mode",
 "Tests sample few values; comparison at the sign boundary and top-bit values of each width are not enumerated.",
 ["ir/tv/strcalc.c", "ir/tv/tv.c"],
 [("sc_comp, sc_is_negative, sc_get_highest_set_bit, sc_get_lowest_set_bit, sc_popcount", "ir/tv/strcalc.c"), ("tarval_cmp and predicates", "ir/tv/tv.c")],
 ["tarval_cmp", "tarval_is_negative", "tarval_is_null", "tarval_is_one", "tarval_is_all_one", "tarval_is_single_bit", "get_tarval_lowest_bit", "get_tarval_highest_bit", "get_tarval_popcount", "tarval_is_long", "get_tarval_long"])

prop("C04", "Conversion between integer modes wraps and widens exactly",
 "Converting a value to another integer mode keeps its low bits and interprets them in the destination mode, so widening sign- or zero-extends by the source signedness and narrowing truncates; a bitcast keeps the bit pattern. Building a value from a host integer, from bytes, or from its own byte image and reading it back yields the same value, and neither direction touches memory outside the given buffer.",
 ["inputs"], "all values and all (source, destination) integer mode pairs, both byte orders",
 "tarval_from_to exercises selected constants; buffer overruns and odd widths are invisible to it.",
 ["ir/tv/strcalc.c", "ir/tv/tv.c"],
 [("tarval_convert_to, tarval_bitcast, new_tarval_from_bytes, tarval_to_bytes, new_tarval_from_long, get_tarval_sub_bits", "ir/tv/tv.c"),
  ("sc_val_from_bytes, sc_val_to_bytes, sc_sign_extend, sc_zero_extend, sc_val_from_bits, sc_val_from_long/ulong, sc_val_to_long/uint64", "ir/tv/strcalc.c")],
 ["tarval_convert_to", "tarval_bitcast", "new_tarval_from_bytes", "tarval_to_bytes", "new_tarval_from_long", "get_tarval_long", "get_tarval_sub_bits"])

prop("C05", "Textual numbers round-trip",
 "Every integer value printed by the library (decimal through the tarval/string conversion, hexadecimal through the textual IR form) denotes that value, and parsing the text back in the same mode yields the identical value; malformed digits are rejected rather than silently misread.",
 ["inputs"], "all values and all digit strings of bounded length, for signed and unsigned modes",
 "Tests parse a few literals.",
 ["ir/tv/strcalc.c", "ir/tv/tv.c"],
 [("sc_val_from_str, sc_print_buf", "ir/tv/strcalc.c"), ("ir_tarval_to_ascii / ir_tarval_from_ascii / new_integer_tarval_from_str", "ir/tv/tv.c")],
 ["ir_tarval_to_ascii", "ir_tarval_from_ascii", "new_integer_tarval_from_str", "new_tarval_from_str"])

prop("C06", "Target float arithmetic is IEEE-754 correctly rounded",
 "For binary float modes, compile-time addition, subtraction, multiplication, division and comparison return the IEEE-754 correctly rounded (nearest-even) result of the exact operation, including zeros with sign, subnormals, infinities and NaN; comparison with NaN is unordered.",
 ["inputs"], "all operand pairs of a float format",
 "tarval_floatops tries 20-odd constants; rounding ties, subnormal results and overflow thresholds need every input.",
 ["ir/tv/fltcalc.c", "ir/tv/tv.c"],
 [("fc_add/fc_sub/fc_mul/fc_div/normalize/_fadd/_fmul/_fdiv", "ir/tv/fltcalc.c")],
 ["fc_add", "fc_sub", "fc_mul", "fc_div", "fc_comp", "tarval_add", "tarval_sub", "tarval_mul", "tarval_div", "tarval_cmp"])

prop("C07", "Float conversions and truncation are exact or correctly rounded",
 "Converting a float value to a wider format is exact, to a narrower format rounds to nearest-even with correct overflow and subnormal handling, truncation to integral removes exactly the fraction, and conversion to an integer mode gives the truncated value or reports overflow; encoding to and decoding from the IEEE bit image are inverse.",
 ["inputs"], "all values of the source format",
 "Tests sample constants.",
 ["ir/tv/fltcalc.c", "ir/tv/tv.c"],
 [("fc_cast, fc_int, fc_flt2int, fc_sub_bits, fc_val_from_ieee754", "ir/tv/fltcalc.c"), ("tarval_convert_to", "ir/tv/tv.c")],
 ["fc_cast", "fc_int", "fc_flt2int", "tarval_convert_to", "fc_val_to_bytes", "fc_val_from_bytes"])

prop("C08", "Compare relations form the expected algebra",
 "For every relation value and all operand orderings, negating a relation gives a relation true exactly when the original is false, swapping operands gives the relation of the exchanged comparison, and the possible-relation result for two compared nodes never excludes an outcome that can occur.",
 ["inputs"], "all 16 relations, all comparison outcomes",
 "No unit test covers relations.",
 ["ir/ir/irnode.c", "ir/opt/iropt.c", "ir/ir/irnode_t.h"],
 [("get_negated_relation, get_inversed_relation, ir_get_possible_cmp_relations", "ir/ir/irnode.c, ir/opt/iropt.c")],
 ["get_negated_relation", "get_inversed_relation", "ir_get_possible_cmp_relations"])

prop("C09", "Modes are unique and report their value range soundly",
 "Registering an integer, reference or float mode with the same attributes twice yields the same mode and with different attributes (including a different float format) a different one; looking up the unsigned, signed or double-width partner yields the mode with exactly those attributes or none; the minimum, maximum, zero, one and all-one values of an integer mode are its real extremes; and whenever one mode is reported smaller than, or value-contained in, another, every value survives conversion there (and back).",
 ["inputs", "configurations"], "all integer mode pairs; all attribute combinations",
 "No unit test on modes.",
 ["ir/ir/irmode.c", "ir/tv/tv.c"],
 [("register_mode/modes_are_equal, smaller_mode, values_in_mode, init_mode_values", "ir/ir/irmode.c")],
 ["new_int_mode", "new_float_mode", "smaller_mode", "values_in_mode", "get_mode_min", "get_mode_max"])

prop("C10", "Local simplification of an expression preserves its value",
 "Whenever the local optimizer folds, replaces or rewrites an integer or boolean data node (arithmetic, bitwise, shift, conversion, compare, select, negation), the replacement computes the same value as the original for every assignment of the inputs on which the original is defined.",
 ["programs", "inputs"], "all small expression trees over the data operations, all constants, all input values",
 "No unit test runs the optimizer at all.",
 ["ir/opt/iropt.c", "ir/opt/iropt_t.h"],
 [("computed_value_*, equivalent_node_*, transform_node_*", "ir/opt/iropt.c")],
 ["computed_value", "equivalent_node", "transform_node", "optimize_node"])

prop("C11", "Known-bits facts are sound",
 "For every integer operation, the bits claimed known-zero or known-one for a result hold for every concrete result of that operation on operands that agree with the claimed bits of the operands; the analysis never excludes a value that can occur.",
 ["programs", "inputs"], "all operand facts and all concrete values",
 "No unit test runs the analysis.",
 ["ir/ana/constbits.c"],
 [("transfer functions per opcode", "ir/ana/constbits.c transfer()")],
 ["constbits_analyze", "get_bitinfo"],
 [("bitinfo z/o", "o <= value <= z bitwise for every concrete value", "ir/ana/constbits.h")])

prop("C12", "Strength-reduced multiply and divide compute the same value",
 "Replacing multiplication, division or remainder by a constant with shifts, adds and high-multiplies yields, for every dividend or multiplicand and every constant of the mode (including negatives, one, minus one, powers of two and the minimum), exactly the value of the original operation.",
 ["programs", "inputs"], "all constants and all operand values of the supported modes",
 "No unit test.",
 ["ir/ir/irarch.c"],
 [("arch_dep_replace_mul_with_shifts, arch_dep_replace_div_by_const, arch_dep_replace_mod_by_const, magic, magicu", "ir/ir/irarch.c")],
 ["arch_dep_replace_mul_with_shifts", "arch_dep_replace_div_by_const", "arch_dep_replace_mod_by_const"])

prop("C13", "Value-range facts are sound",
 "For every node the value-range analysis describes, each concrete value the node can take satisfies the reported bounds and bit masks.",
 ["programs", "inputs"], "all operand ranges and concrete values", "No unit test.",
 ["ir/ana/vrp.c"], [("vrp_update_node", "ir/ana/vrp.c")], ["vrp_get_info", "vrp_cmp"])

prop("C14", "Confirm-based reasoning never decides an open question",
 "When a fact attached to a value by a dominating comparison (a Confirm) is used to decide another comparison, to replace the value by a constant, or to classify the value as non-null, the decision holds for every value satisfying the attached fact.",
 ["programs", "inputs"], "all attached relations and bounds, all queried relations and constants, all values", "No unit test.",
 ["ir/opt/opt_confirms.c", "ir/opt/iropt.c"],
 [("computed_value_Cmp_Confirm", "ir/opt/opt_confirms.c"), ("value_not_null, computed_value_Confirm", "ir/opt/iropt.c")],
 ["computed_value_Cmp_Confirm", "value_not_null", "computed_value_Confirm"])

prop("C15", "Machine bit-twiddling helpers match their definitions",
 "For all 32-bit inputs, population count, leading/trailing zero counts, floor and ceiling log2, round-up to a power of two or multiple, and power-of-two test return exactly the mathematically defined value over their documented domain.",
 ["inputs"], "all 2^32 (or 2^64) argument values", "No direct unit test.",
 ["ir/adt/bitfiddle.h"], [("popcount, nlz, ntz, log2_floor, log2_ceil, floor_po2, ceil_po2, round_up2, is_po2_or_zero", "ir/adt/bitfiddle.h")],
 ["popcount", "nlz", "ntz", "log2_floor", "log2_ceil", "ceil_po2", "round_up2"])

prop("C16", "Bit sets behave as mathematical sets",
 "Every raw bitset and bitset operation (set, clear, flip, ranges, bulk and/or/xor/andnot, flip-all, count, next set, next clear, equality, subset, intersection test, emptiness) changes and reports exactly the elements its mathematical set counterpart does, for every size including sizes not a multiple of the word size, and never disturbs or reports bits outside the set.",
 ["inputs"], "all contents and positions; all sizes up to the stated bound", "rbitset tests a few fixed patterns.",
 ["ir/adt/raw_bitset.h", "ir/adt/bitset.h"], [("rbitset_*, bitset_*", "ir/adt/raw_bitset.h, ir/adt/bitset.h")],
 ["rbitset_set_range", "rbitset_next_max", "rbitset_popcount", "bitset_next_set", "bitset_flip_all"])

prop("C17", "Hash sets and maps behave as sets and finite maps",
 "After any history of insert, find, remove and iterate operations, the hash-based sets and maps contain exactly the keys inserted and not removed, each once, with the value last associated; lookups of absent keys return nothing and iteration visits every element exactly once.",
 ["histories"], "all operation histories and hash values", "globalmap checks one happy path.",
 ["ir/adt/hashset.c.h", "ir/adt/set.c", "ir/adt/pset_new.c", "ir/adt/cpset.c", "ir/adt/pmap.c"],
 [("hashset probing with deleted-entry markers, resize", "ir/adt/hashset.c.h"), ("linear hashing table split", "ir/adt/set.c")],
 ["pset_new_insert", "pset_new_remove", "pset_insert", "set_insert", "cpset_insert", "pmap_insert"])

prop("C18", "Queues and heaps keep their order",
 "A double-ended queue returns at each end exactly the bytes pushed and not yet popped in sequence order after any history of pushes and pops on both ends, including block and size boundaries; the priority queue always pops a maximal-priority element among those inserted and loses none.",
 ["histories"], "all operation histories", "deq covers one scenario.",
 ["ir/adt/deq.c", "ir/adt/deq.h", "ir/adt/pdeq.h", "ir/adt/pqueue.c"],
 [("deq_*", "ir/adt/deq.c"), ("pqueue heap", "ir/adt/pqueue.c")], ["deq_push_pointer_left", "deq_pop_pointer_right", "pqueue_put", "pqueue_pop_front"])

prop("C19", "DWARF sizes equal the bytes emitted",
 "For every unsigned or signed number put into debug sections, the computed LEB128 length equals the number of bytes its LEB128 encoding takes, so that recorded section and expression lengths match the emitted data.",
 ["inputs"], "all values of the machine word", "No unit test.",
 ["ir/be/bedwarf.c"], [("get_uleb128_size, get_sleb128_size", "ir/be/bedwarf.c")], ["get_uleb128_size", "get_sleb128_size"])

prop("C20", "Immediate encodings denote the constant they replace",
 "Whenever the ARM, RISC-V, MIPS or SPARC backend puts a constant or offset into an instruction's immediate fields, the fields hold it and decode by the architecture's rules to exactly that constant; sequences that materialise larger constants or offsets (including load and store addresses and stack adjustments) combine to exactly the constant; and an integer operation (arithmetic, bitwise, shift, comparison, extension) selected with such immediates computes the operation's value, 8- and 16-bit modes included.",
 ["inputs"], "all 32-bit constants, offsets and operand values", "No unit test; no backend is executed in tests.",
 ["ir/be/arm/arm_optimize.c", "ir/be/arm/arm_transform.c", "ir/be/riscv/riscv_transform.c", "ir/be/riscv/riscv_finish.c", "ir/be/riscv/riscv_bearch.c", "ir/be/mips/mips_transform.c", "ir/be/sparc/sparc_transform.c", "ir/be/sparc/sparc_finish.c"],
 [("arm_gen_vals_from_word, try_encode_val_as_immediate, peephole_*", "ir/be/arm"), ("calc_hi_lo, make_extension, gen_shift_op, finish_*", "ir/be/riscv"), ("gen_Const, gen_logic_op", "ir/be/mips"), ("create_int_const, gen_helper_bitop, finish_*", "ir/be/sparc")],
 ["arm_gen_vals_from_word", "calc_hi_lo", "arm_is_valid_offset", "emitted assembly"])

prop("C21", "Switch lowering reaches the case of the value",
 "Lowering a multi-way branch to comparisons and jump tables sends every selector value to the target its table entry names, or to the default when no entry covers it, for every set of non-overlapping case ranges in every integer mode.",
 ["programs", "inputs"], "all switch tables and selector values", "No unit test.",
 ["ir/lower/lower_switch.c"], [("analyse_switch0, create_if_cascade, normalize_table", "ir/lower/lower_switch.c")], ["lower_switch"])

prop("C22", "Alias answers are sound",
 "Whenever two memory accesses are reported as not aliasing, no execution makes their byte ranges overlap.",
 ["programs", "inputs"], "all address expressions built from bases and offsets", "No unit test.",
 ["ir/ana/irmemory.c"], [("get_alias_relation, offset and base disambiguation", "ir/ana/irmemory.c")], ["get_alias_relation"])

prop("C23", "Aggregate layout is overlap-free and aligned",
 "Laying out a struct puts members in order at offsets aligned for their type without overlap (bit-fields only share storage in disjoint bits), a union puts all members at the start, and the size covers all members and is a multiple of the alignment.",
 ["inputs"], "all member size/alignment sequences", "No unit test.",
 ["ir/tr/type.c"], [("default_layout_compound_type", "ir/tr/type.c")], ["default_layout_compound_type"])

prop("C24", "PBQP reductions keep an optimal solution",
 "Reducing degree-0, degree-1 and degree-2 nodes and simplifying edges of an allocation problem, followed by back-propagation, yields an assignment whose cost equals the minimum cost over all assignments.",
 ["inputs"], "all cost vectors and matrices", "No unit test.",
 ["ir/kaps/optimal.c", "ir/kaps/matrix.c", "ir/kaps/vector.c"], [("apply_RI, apply_RII, simplify_edge", "ir/kaps/optimal.c")], ["solve_pbqp_heuristical"])

prop("C25", "Linear assignment and matching are optimal",
 "The assignment solver returns a permutation whose total cost is minimal (or maximal when asked) over all assignments, and the bipartite matcher a matching of maximum size.",
 ["inputs"], "all cost matrices", "No unit test.",
 ["ir/adt/hungarian.c", "ir/adt/bipartite.c"], [("hungarian_solve", "ir/adt/hungarian.c")], ["hungarian_solve", "bipartite_matching"])

prop("C26", "Word splitting keeps 64-bit semantics on 32-bit targets",
 "Replacing a double-word operation by single-word operations yields low and high words that together equal the double-word result for all inputs.",
 ["programs", "inputs"], "all double-word operands and shift amounts", "No unit test.",
 ["ir/lower/lower_dw.c"], [("lower_* handlers", "ir/lower/lower_dw.c")], ["ir_lower_dw_ops"])

prop("C27", "Register permutations deliver every value",
 "Implementing a set of simultaneous register moves by copies and swaps leaves in every destination exactly the value its source held before, whatever cycles and duplications the set contains.",
 ["inputs"], "all parallel-copy graphs", "No unit test.",
 ["ir/be/belower.c"], [("lower_perm_node, impl_parcopy", "ir/be/belower.c")], ["lower_nodes_after_ra"])

prop("C28", "Compiled programs behave like their graph",
 "For every valid program graph and every supported target, the emitted assembly executes with the observable behaviour of the graph, at any optimisation setting.",
 ["programs", "configurations", "inputs"], "all programs, targets and option sets", "No test compiles a program.",
 ["ir/be/", "ir/opt/", "ir/lower/"], [("the whole pass pipeline", "ir/be/bemain.c")], ["be_main"])

prop("C29", "SSA construction reads the last value written",
 "Reading a local variable through the construction interface yields, on every control-flow path, the value last stored to it on that path, with merges exactly where paths with different values join.",
 ["programs"], "all control-flow graphs and write histories", "No unit test.",
 ["ir/ir/ircons.c"], [("get_r_value_internal, mature_immBlock", "ir/ir/ircons.c")], ["get_value", "set_value", "mature_immBlock"])

prop("C30", "Dominance, loop and liveness answers match their definitions",
 "For every control-flow graph, the reported immediate dominators, dominance frontiers, loop nesting and live ranges equal their graph-theoretic definitions.",
 ["programs"], "all control-flow graphs", "No unit test.",
 ["ir/ana/irdom.c", "ir/ana/domfront.c", "ir/ana/irloop.c", "ir/be/belive.c"], [("compute_doms (Lengauer-Tarjan)", "ir/ana/irdom.c")], ["block_dominates", "get_Block_idom"])

prop("C31", "Register allocation and spilling keep values",
 "After spilling, colouring and copy lowering no two simultaneously live values share a register and every reload reads the slot its value was stored to, under all register constraints.",
 ["programs"], "all scheduled graphs and register constraints", "No unit test.",
 ["ir/be/bechordal.c", "ir/be/bespillutil.c", "ir/be/beprefalloc.c"], [("chordal colouring, spill placement", "ir/be/bechordal.c")], ["be_verify_register_allocation"])

prop("C32", "Textual IR export and import are inverse",
 "Exporting a program graph to its textual form and importing it again yields an isomorphic program with identical attributes, types, entities and constants.",
 ["programs"], "all valid program graphs", "No unit test.",
 ["ir/ir/irio.c"], [("ir_export / ir_import", "ir/ir/irio.c")], ["ir_export", "ir_import"])

prop("C33", "Memory optimisations keep the memory history",
 "Removing, forwarding or moving loads and stores never changes the value any remaining load observes nor the final memory contents.",
 ["programs"], "all memory graphs", "No unit test.",
 ["ir/opt/ldstopt.c", "ir/opt/opt_ldst.c"], [("load/store forwarding", "ir/opt/opt_ldst.c")], ["optimize_load_store", "opt_ldst"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
