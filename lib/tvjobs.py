"""Job lists shared by the tarval properties C01-C05."""
from vf import *
CAD = "--sat-solver cadical"
RC = ["sc_mul:mul_contract", "sc_divmod:divmod_contract"]
QW = [(8, 1), (8, 0), (16, 1), (16, 0), (32, 1), (32, 0), (64, 1), (64, 0)]
ODD = [(1, 1), (1, 0), (7, 0), (12, 1), (24, 0), (33, 1), (48, 0), (63, 1)]
WIDTHS = QW if TIER == "quick" else QW + ODD
def nm(b, s): return "%s%d" % ("us"[s], b)
def tv(name, entry, b, s, extra=(), fn=(), **kw):
    return Job(name, "tarval.c", entry="h_" + entry, defs=["BITS=%d" % b, "SGN=%d" % s] + list(extra), unwind=36,
               replace_calls=RC, solver=CAD, timeout=kw.pop("timeout", 400), functions=fn, search_time=10, **kw)
def sc(name, entry, defs=(), fn=(), **kw):
    return Job(name, "strcalc.c", entry="h_" + entry, defs=list(defs), unwind=36, solver=CAD, timeout=400, functions=fn, search_time=8, **kw)
TRUST_TV = ["interning set of tarvals used through its contract (one entry per content; hash values abstracted to 0), see C17",
            "modes are hand-made ir_mode structs initialised by the real init_mode_values",
            "buffer configuration fixed to the library's own (init_fltcalc(128): 34 byte numbers)"]
