#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from tvjobs import *
J = [sc("sc_hostint", "hostint", fn=["sc_val_from_long", "sc_val_from_ulong", "sc_val_to_long", "sc_val_to_uint64"])]
for b in (1, 5, 8, 16, 31, 32, 64) if TIER == "quick" else range(1, 129):
    J.append(sc("sc_extend_%d" % b, "extend", ["BITS=%d" % b], ["sc_sign_extend", "sc_zero_extend"]))
    J.append(sc("sc_sub_bits_%d" % b, "subbits", ["BITS=%d" % b], ["sc_sub_bits"]))
for n in (1, 4, 8, 17) if TIER == "quick" else range(1, 35):
    J.append(sc("sc_bytes_%d" % n, "bytes", ["NBYTES=%d" % n], ["sc_val_from_bytes", "sc_val_to_bytes"]))
for a, b in ((0, 1), (0, 8), (3, 7), (3, 15), (5, 64), (0, 64), (16, 47), (7, 8), (7, 9), (60, 80), (15, 79)) if TIER == "quick" else [(a, b) for a in range(0, 33) for b in range(a + 1, 81)]:
    J.append(sc("sc_val_from_bits_%d_%d" % (a, b), "frombits", ["FROM=%d" % a, "TO=%d" % b], ["sc_val_from_bits"]))
W = WIDTHS
for b, s in W:
    for db, ds in W:
        J.append(tv("convert_%s_%s" % (nm(b, s), nm(db, ds)), "convert", b, s, ["DBITS=%d" % db, "DSGN=%d" % ds], fn=["tarval_convert_to"]))
    J.append(tv("images_" + nm(b, s), "images", b, s, fn=["tarval_to_bytes", "new_tarval_from_bytes", "tarval_bitcast"]))
    if b % 8 == 0:
        J.append(tv("host_" + nm(b, s), "host", b, s, fn=["new_tarval_from_long", "get_tarval_long", "get_tarval_uint64"]))
if TIER == "quick":
    for b, s in ((1, 0), (7, 1), (12, 1), (33, 0), (33, 1), (57, 0)):
        J.append(tv("images_" + nm(b, s), "images", b, s, fn=["tarval_to_bytes", "new_tarval_from_bytes", "tarval_bitcast"]))
        J.append(tv("convert_%s_s64" % nm(b, s), "convert", b, s, ["DBITS=64", "DSGN=1"], fn=["tarval_convert_to"]))
        J.append(tv("convert_u64_%s" % nm(b, s), "convert", 64, 0, ["DBITS=%d" % b, "DSGN=%d" % s], fn=["tarval_convert_to"]))
if __name__ == "__main__":
    sys.exit(main("C04", J, trusted=TRUST_TV, explanation="every ordered pair of the integer modes " + ",".join(nm(b, s) for b, s in W) + ", every value"))
