#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from tvjobs import *
J = []
KN = ("shl", "shr", "shrs")
W = [w for w in WIDTHS if w[0] % 8 == 0 and (TIER != "quick" or w[0] != 16)]   # sc_shrsI requires whole bytes
SH = (0, 1, 8, 13, 64, 271, 272) if TIER == "quick" else range(0, 273)
for s in SH:
    for f in ("shl", "shr"):
        for al in (0, 1):
            J.append(sc("sc_%sI_%d_%d" % (f, s, al), f, ["SHIFT=%d" % s, "ALIAS=%d" % al], ["sc_%sI" % f]))
    for b in ((8, 32, 64) if TIER == "quick" else (8, 16, 32, 64)):
        J.append(sc("sc_shrsI_%d_%d" % (b, s), "shrs", ["SHIFT=%d" % s, "BITS=%d" % b], ["sc_shrsI"]))
        J.append(sc("sc_shnum_%d_%d" % (b, s), "shnum", ["SHIFT=%d" % s, "BITS=%d" % b], ["sc_shl", "sc_shr", "sc_shrs"]))
for b, s in W:
    for k in (0, 1, 2):
        for m in ((0, max(b, 32)) if TIER == "quick" else (0, 32, 64, 128)):
            d = ["KIND=%d" % k, "MODULO=%d" % m]
            J.append(tv("%s_unsigned_%s_mod%d" % (KN[k], nm(b, s), m), "shift_num", b, s, d, ["tarval_%s_unsigned" % KN[k]], weight=3))
            J.append(tv("%s_%s_mod%d" % (KN[k], nm(b, s), m), "shift_val", b, s, d, ["tarval_" + KN[k]], weight=5))
if __name__ == "__main__":
    sys.exit(main("C02", J, trusted=TRUST_TV + ["sc_mod by the power-of-two modulo-shift used through its contract (amount mod 2^k)"],
      explanation="shift by host number: every amount; shift by value: every non-negative amount up to 2^31-1 of a 32 bit mode; sc_*I proved per amount in %s" % (list(SH) if TIER == "quick" else "0..272")))
