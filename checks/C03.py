#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from tvjobs import *
J = [sc("sc_comp", "comp", fn=["sc_comp"]), sc("sc_misc", "misc", fn=["sc_is_negative", "sc_get_bit_at", "sc_is_zero", "sc_is_all_one"]),
     sc("sc_bitpos", "bitpos", fn=["sc_get_highest_set_bit", "sc_get_lowest_set_bit", "sc_get_highest_clear_bit"])]
for b in (1, 5, 8, 16, 31, 32, 64) if TIER == "quick" else range(1, 129):
    J.append(sc("sc_popcount_%d" % b, "popcount", ["BITS=%d" % b], ["sc_popcount"]))
    J.append(sc("sc_minmax_%d" % b, "minmax", ["BITS=%d" % b], ["sc_min_from_bits", "sc_max_from_bits"]))
for b, s in [w for w in WIDTHS if w[0] % 8 == 0]:
    J.append(tv("cmp_" + nm(b, s), "cmp", b, s, fn=["tarval_cmp"]))
    J.append(tv("in_range_" + nm(b, s), "in_range", b, s, fn=["tarval_in_range"], weight=4))
    J.append(tv("extremes_" + nm(b, s), "extremes", b, s, fn=["init_mode_values"]))
    J.append(tv("pred_" + nm(b, s), "pred", b, s, fn=["tarval_is_negative", "tarval_is_null", "tarval_is_one", "tarval_is_all_one", "get_tarval_popcount",
        "get_tarval_lowest_bit", "get_tarval_highest_bit", "get_tarval_magnitude", "tarval_get_bit", "get_tarval_sub_bits"]))
    J.append(tv("host_" + nm(b, s), "host", b, s, fn=["tarval_is_long", "get_tarval_long", "tarval_is_uint64", "get_tarval_uint64", "new_tarval_from_long"]))
J.append(tv("bool", "bool", 8, 1, fn=["tarval_cmp"]))
if __name__ == "__main__":
    sys.exit(main("C03", J, trusted=TRUST_TV, explanation="every value (pair) of the integer modes " + ",".join(nm(b, s) for b, s in WIDTHS if b % 8 == 0)))
