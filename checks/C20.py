#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
CAD = "--sat-solver cadical"
J = []
def job(arch, name, fns, tag="", src=None, **kw):
    J.append(Job("%s_%s%s" % (arch, name, tag), src or "be_%s.c" % arch, entry="h_" + name, functions=fns, unwind=40, solver=CAD, checks=["--no-standard-checks"], timeout=200, search_time=6, incs=[os.path.join(REPO, "ir/be", arch)], **kw))
A = "arm_gen_vals_from_word"
for n, f in dict(vals=[A], encode=["try_encode_val_as_immediate"], match=["try_encode_as_immediate"], const=["create_const_graph_value"], constnode=["create_const_graph"],
                 extension=["gen_extension", "gen_zero_extension", "gen_sign_extension"],  shift=["make_shift", "gen_Shl", "gen_Shr", "gen_Shrs", "can_use_shift_constant"], cmp=["gen_Cmp"]).items():
    job("arm", n, f)
EN = ("try_encode_val_as_immediate:vf_encode",)
for n, f in dict(Add=["gen_Add", "gen_int_binop_ops"], Sub=["gen_Sub", "gen_int_binop"], And=["gen_And"], Or=["gen_Or"], Eor=["gen_Eor"]).items():
    for l in (0, 1): job("arm", n, f, tag=str(l), defs=["LEFT=%d" % l], replace_calls=EN)
job("arm", "bic", ["gen_And"], replace_calls=EN)
for n, f in dict(incsp=["peephole_be_IncSP", "allowed_arm_immediate", "arm_ror"], validoffset=["arm_is_valid_offset"], ldst=["peephole_arm_Str_Ldr", "gen_ptr_add", "gen_ptr_sub"],
                 frameaddr=["peephole_arm_FrameAddr", "gen_ptr"]).items():
    job("arm", n, f, defs=["OPTIMIZE"])
TR = "be/%s/%s_transform.c:"
for arch, mips in (("riscv", 0), ("mips", 1)):
    D = ["MIPS"] if mips else []
    def rjob(name, fns, tag="", defs=(), **kw): job(arch, name, fns, tag, src="be_risc.c", defs=D + list(defs), **kw)
    for bits in (8, 16, 32):
        for sign in (0, 1):
            d = ["BITS=%d" % bits, "SIGN=%d" % sign]; t = "_%s%d" % ("su"[1 - sign], bits)
            rjob("const", ["gen_Const"] + ([] if mips else ["calc_hi_lo"]), t, d)
            for n in ("Add", "Sub", "And", "Or", "Eor"): rjob(n, ["gen_" + n] + (["gen_logic_op"] if n in ("And", "Or", "Eor") else []), t, d)
            for n in ("Shl", "Shr", "Shrs"):
                if n == "Shl" or bits == 32 or not mips: rjob(n, ["gen_" + n, "gen_shift_op"], t, d)
            if bits < 32: rjob("Conv", ["gen_Conv", "make_extension"], t, d)
            rjob("unary", ["gen_Minus", "gen_Not"], t, d)
            rjob("Cmp", ["gen_Cmp", "extend_value", "make_extension"], t, d)
            rjob("Cond", ["gen_Cond", "gen_Cmp", "make_extension"], t, d + ["COND"])
    rjob("saturate", ["gen_saturating_increment"])
    rjob("addr", ["make_addr"])
    if not mips:
        for n, f in dict(hilo=["calc_hi_lo"], immconst=["create_constant_from_immediate"], frameaddr=["finish_riscv_FrameAddr"], ldst=["finish_riscv_load_store_offsets"], incsp=["finish_be_IncSP"], shiftpair=["peephole_riscv_shift"]).items(): rjob(n, f)
H = ["gen_helper_binop_args", "gen_helper_binop_left", "gen_extension"]
for bits in (8, 16, 32):
    for sign in (0, 1):
        d = ["BITS=%d" % bits, "SIGN=%d" % sign]; t = "_%s%d" % ("su"[1 - sign], bits)
        for n in ("Add", "Sub", "And", "Or", "Eor", "Shl", "Shr", "Shrs"): job("sparc", n, ["gen_" + n] + H + (["gen_helper_bitop"] if n in ("And", "Or", "Eor") else []), t, defs=d)
        if bits < 32: job("sparc", "Conv", ["gen_Conv"], t, defs=d)
        job("sparc", "unary", ["gen_Minus", "gen_Not"], t, defs=d)
        job("sparc", "Cmp", ["gen_Cmp"] + H, t, defs=d)
        job("sparc", "CmpConst", ["gen_Cmp"] + H, t, defs=d)
job("sparc", "CmpZero", ["gen_Cmp", "gen_helper_bitop"])
for n, f in dict(const=["create_int_const"], immconst=["create_constant_from_immediate"], frameaddr=["finish_sparc_FrameAddr"], save=["finish_sparc_Save"], incsp=["finish_be_IncSP"],
                 ld=["finish_sparc_Ld", "finish_load_store"], st=["finish_sparc_St"], ldf=["finish_sparc_Ldf"], stf=["finish_sparc_Stf"]).items(): job("sparc", n, f)
if __name__ == "__main__":
    sys.exit(main("C20", J, trusted=["what an instruction computes from its fields (the stubs for the generated node constructors, in h/be*.c)",
        "be_transform_node, be_skip_downconv, be_skip_sameconv: a node of the same value"]))
