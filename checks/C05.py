#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from tvjobs import *
J = []
Q = TIER == "quick"
def tx(name, entry, defs, fn, **kw):
    return Job(name, "sctext.c", entry="h_" + entry, defs=defs, unwind=44, replace_calls=RC, solver=CAD, timeout=600 if Q else 3000, functions=fn, search_time=8, **kw)
for b in (8, 12, 16, 32, 64) if Q else range(1, 129): J.append(tx("hex_%d" % b, "hex", ["BITS=%d" % b, "SGN=0"], ["sc_print_buf"]))
for b, s in ((8, 1), (8, 0), (12, 0), (16, 1), (16, 0), (24, 1)) if Q else ((8, 1), (8, 0), (12, 0), (16, 1), (16, 0), (24, 1), (24, 0), (32, 1), (32, 0)):
    J.append(tx("dec_%s" % nm(b, s), "dec", ["BITS=%d" % b, "SGN=%d" % s], ["sc_print_buf"], weight=b))
for base in (2, 8, 10, 16):
    for l in (1, 2, 3, 4, 8) if Q else range(1, 20):
        J.append(tx("parse_base%d_%d" % (base, l), "parse", ["BASE=%d" % base, "LEN=%d" % l], ["sc_val_from_str"], bounded="texts of %d characters" % l))
J.append(tx("parse_base10_19", "parse", ["BASE=10", "LEN=19"], ["sc_val_from_str"], weight=30, bounded="texts of 19 characters", tiers=("quick",)))
J.append(tx("parse_base16_16", "parse", ["BASE=16", "LEN=16"], ["sc_val_from_str"], weight=20, bounded="texts of 16 characters", tiers=("quick",)))
for b, s in ((8, 1), (16, 0), (32, 1), (64, 0), (64, 1)):
    J.append(tx("ascii_%s" % nm(b, s), "ascii", ["BITS=%d" % b, "SGN=%d" % s, "BASE=16"], ["ir_tarval_to_ascii", "ir_tarval_from_ascii", "new_integer_tarval_from_str"], weight=20))
for base in (2, 8, 10, 16):
    for l in (2, 4, 5) if Q else range(1, 12):
        if base in (2, 16) and l < 3 or base == 8 and l < 2: continue
        J.append(tx("literal_base%d_%d" % (base, l), "literal", ["BASE=%d" % base, "LEN=%d" % l, "BITS=32", "SGN=1"], ["new_tarval_from_str"], weight=12, bounded="texts of %d characters" % l))
if __name__ == "__main__":
    sys.exit(main("C05", J, trusted=TRUST_TV + ["sc_mul by the base and sc_divmod by ten used through their contracts (C01)"],
      explanation="printers: every value of the given widths; parsers: every text of the given lengths"))
