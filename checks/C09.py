#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from tvjobs import *
def md(n, fn, **kw): return Job(n, "mode.c", entry="h_" + n, functions=fn, unwind=kw.pop("unwind", 70), unwind_cap=80, solver=CAD, timeout=600, search_time=8, **kw)
J = [md("equal", ["modes_are_equal"]),
     md("unique", ["new_int_mode", "new_reference_mode", "new_float_mode", "register_mode", "find_mode", "modes_are_equal"], unwind=10, bounded="histories of three registrations with arbitrary attributes"),
     md("smaller_int", ["smaller_mode", "values_in_mode"], native=False),
     md("smaller_float", ["smaller_mode", "values_in_mode", "float_format_contained"]),
     md("int_float", ["values_in_mode"]), md("mixed", ["smaller_mode", "values_in_mode"]),
     md("find", ["find_unsigned_mode", "find_signed_mode", "find_double_bits_int_mode"], unwind=8, bounded="two registered modes with arbitrary attributes")]
for b, s in WIDTHS: J.append(tv("extremes_" + nm(b, s), "extremes", b, s, fn=["init_mode_values", "get_mode_min", "get_mode_max", "sc_max_from_bits", "sc_min_from_bits"]))
if __name__ == "__main__":
    sys.exit(main("C09", J, trusted=TRUST_TV + ["flexible array of modes through its contract", "obstack allocation returns fresh zeroed memory"],
      explanation="mode attributes: sizes 1..271 bits, every modulo shift, float formats up to 255 mantissa and (for the value arguments) 20 exponent bits; extremes for widths " + ",".join(nm(b, s) for b, s in WIDTHS)))
