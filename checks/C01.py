#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from tvjobs import *
J = []
for f in "add sub and or xor andnot ornot not neg".split():
    for al in (0, 1, 2):
        if al == 2 and f in ("not", "neg"): continue
        J.append(sc("sc_%s_%d" % (f, al), f, ["ALIAS=%d" % al], ["sc_" + f]))
J.append(sc("sc_misc", "misc", fn=["sc_is_negative", "sc_get_bit_at", "sc_is_zero", "sc_is_all_one", "sc_inc", "sc_zero", "sc_set_bit_at", "sc_clear_bit_at"]))
W = [w for w in WIDTHS if TIER != "quick" or w[0] != 16]
for b, s in W:
    for f in "add sub and or eor andnot ornot mul div mod divmod neg not abs".split():
        J.append(tv("%s_%s" % (f, nm(b, s)), f, b, s, fn=["tarval_" + f, "get_int_tarval", "get_int_tarval_overflow", "is_overflow"]))
J.append(tv("bool", "bool", 8, 1, fn=["tarval_and", "tarval_or", "tarval_eor", "tarval_andnot", "tarval_ornot", "tarval_not", "tarval_cmp"]))
# sc_mul: digit products against exact sums; bounded in the number of non-zero digits
def mul(xd, yd, xj, yj, nx, ny, w, tiers=("quick", "thorough")):
    return Job("sc_mul_%dx%d_at_%d_%d_%d%d" % (xd, yd, xj, yj, nx, ny), "scmul.c", entry="h_mul", functions=["sc_mul"],
        defs=["XD=%d" % xd, "YD=%d" % yd, "XJ=%d" % xj, "YJ=%d" % yj, "NX=%d" % nx, "NY=%d" % ny], unwind=36, solver=CAD, timeout=850 if TIER == "quick" else 3000,
        bounded="magnitudes with %d digits (bytes) from position %d times %d digits from position %d" % (xd, xj, yd, yj), weight=w, search_time=20, tiers=tiers)
J += [mul(17, 1, 0, 0, 0, 0, 90), mul(17, 1, 0, 16, 0, 0, 90), mul(1, 17, 3, 0, 1, 0, 90), mul(3, 3, 0, 0, 0, 0, 80), mul(3, 3, 0, 0, 1, 0, 95),
      mul(3, 3, 14, 14, 0, 1, 95), mul(2, 2, 0, 0, 1, 1, 50), mul(4, 4, 0, 0, 0, 0, 100)]
T = ("thorough",)
J += [mul(17, 1, 0, j, j & 1, 0, 90, T) for j in range(1, 16)] + [mul(1, 17, j, 0, 0, j & 1, 90, T) for j in range(0, 17) if j != 3]
J += [mul(17, 2, 0, 0, 0, 0, 120, T), mul(17, 2, 0, 15, 0, 0, 120, T), mul(5, 5, 0, 0, 0, 0, 200, T), mul(3, 3, 0, 0, 1, 1, 90, T), mul(3, 3, 7, 5, 0, 0, 90, T), mul(6, 6, 0, 0, 0, 0, 300, T)]
RD = ["sc_add:add_c", "sc_neg:neg_c", "sc_comp:comp_c", "sc_is_negative:isneg_c", "sc_is_zero:iszero_c"]
def dv(name, entry, defs, unwind, bound, w, tiers=("quick", "thorough")):
    return Job("sc_divmod_" + name, "scmul.c", entry=entry, functions=["sc_divmod"], defs=defs, unwind=unwind, replace_calls=RD, solver=CAD,
               timeout=850 if TIER == "quick" else 3000, bounded=bound, weight=w, search_time=20, tiers=tiers)
J += [dv("8by8", "h_divmod", ["DD=1", "VD=1", "NB=2"], 258, "2 byte numbers, every 8 bit dividend and divisor, either sign", 100),
      dv("16by10", "h_divmod", ["DD=2", "VD=1", "NB=3", "CONST=10"], 258, "3 byte numbers, every 16 bit dividend by ten, either sign", 100),
      dv("q1", "h_divback", ["NB=4", "VD=1", "QD=1", "QJ=0", "QM=3"], 10, "4 byte numbers, 1 byte divisors, quotients up to 3", 10),
      dv("q2", "h_divback", ["NB=6", "VD=2", "QD=2", "QJ=0", "QM=3"], 10, "6 byte numbers, 2 byte divisors, 2 digit quotients with digits up to 3", 90),
      dv("q3", "h_divback", ["NB=8", "VD=3", "QD=3", "QJ=0", "QM=1"], 10, "8 byte numbers, 3 byte divisors, 3 digit quotients with digits up to 1", 90),
      dv("q4", "h_divback", ["NB=8", "VD=2", "QD=2", "QJ=2", "QM=1"], 10, "8 byte numbers, 2 byte divisors, quotient digits 2,3 up to 1", 90),
      dv("8by8w", "h_divmod", ["DD=1", "VD=1", "NB=4"], 258, "4 byte numbers, every 8 bit dividend and divisor, either sign", 150, T),
      dv("16by1000", "h_divmod", ["DD=2", "VD=2", "NB=4", "CONST=1000"], 258, "4 byte numbers, every 16 bit dividend by 1000", 150, T),
      dv("16by10w", "h_divmod", ["DD=2", "VD=2", "NB=4", "CONST=10"], 258, "4 byte numbers, every 16 bit dividend by ten", 150, T)]
for j in J:
    if j.src == "tarval.c" and j.name[:3] in ("mul", "div", "mod"): j.weight = 5
if __name__ == "__main__":
    sys.exit(main("C01", J, trusted=TRUST_TV + ["tarval_mul/div/mod/divmod are proved against uninterpreted exact product/quotient/remainder; that sc_mul and sc_divmod compute those is shown by the bounded sc_mul_*/sc_divmod_* jobs only"],
      explanation="integer widths " + ",".join(nm(b, s) for b, s in W) + "; all values of each; loops over the 34 byte numbers unwound completely"))
