import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py")).read().split("BUGS = [")[0], _ns)
PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
typedef uint32_t u32;
static u32 ror(u32 v, unsigned r) { r &= 31; return r ? v >> r | v << (32 - r) : v; }
static u32 rnd(void) { static uint64_t s = 88172645463325252ull; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static u32 some(unsigned i) { u32 r = rnd() & (rnd() | rnd()); return i < 70000 ? i : i % 3 == 0 ? r >> (rnd() & 31) << (rnd() & 31) : i % 3 == 1 ? (rnd() & 0x3ff) << (rnd() & 31) : r; }
'''
# the transformer's source over stand-in constructors that compute the value of the instruction
SEL = PRE + r'''
#include "irnode_t.h"
#include "ircons_t.h"
#include "irgraph_t.h"
#include "irmode_t.h"
#include "iropt_t.h"
#include "benode.h"
#include "betranshlp.h"
#include "firm.h"
struct fk { ir_node n; u32 v; };
static bool bad; static u32 vx; static ir_node *X;
#define V(n) (((struct fk*)(n))->v)
static ir_node *G(u32 v) { struct fk *f = calloc(1, sizeof(*f)); f->n.kind = k_ir_node; f->v = v; return &f->n; }
ir_node *be_transform_node(ir_node *n) { return G(n == X ? vx : (u32)get_Const_long(n)); }
ir_node *be_transform_nodes_block(ir_node const *n) { return NULL; }
ir_node *be_get_Start_proj(ir_graph *g, arch_register_t const *r) { return G(0); }
#define FITS(i, lo, hi) do { if ((i) < (lo) || (i) > (hi)) bad = true; } while (0)
static ir_graph *g; static ir_node *bl;
static void start(void)
{
	ir_init();
	ir_type *ty = new_type_method(1, 1, 0, cc_cdecl_set, mtp_no_property);
	set_method_param_type(ty, 0, new_type_primitive(mode_Iu)); set_method_res_type(ty, 0, new_type_primitive(mode_Iu));
	g = new_ir_graph(new_entity(get_glob_type(), "f", ty), 1); bl = get_irg_start_block(g);
	set_optimize(0); edges_activate(g);
}
static ir_node *raw(ir_op *op, ir_mode *m, ir_node *a, ir_node *b) { ir_node *in[2] = { a, b }; return new_ir_node(NULL, g, bl, op, m, 2, in); }
'''
BUGS = [
 dict(id="c20-arm-vals", property="C20", flags="-Iir/be/arm ", needs="a constant whose lowest set bit is at an odd position",
      breaks="ARM constants are split into immediates rotated by an odd amount, which the instruction cannot hold",
      edits=[("ir/be/arm/arm_transform.c", "		while ((value & 0x3) == 0) {\n			value  >>= 2;\n			initial += 2;", "		while ((value & 0x1) == 0) {\n			value  >>= 1;\n			initial += 1;")],
      demo=PRE + r'''
#include "arm_optimize.h"
int main(void)
{
	for (unsigned i = 0; i < 400000; ++i) {
		u32 v = some(i), s = 0; arm_vals r; arm_gen_vals_from_word(v, &r);
		for (unsigned k = 0; k < r.ops; ++k) { s += ror(r.values[k], r.rors[k]); if (r.rors[k] & 1) { printf("%x: rotation %u\n", v, r.rors[k]); return 1; } }
		if (s != v) { printf("%x: sum %x\n", v, s); return 1; }
	}
	return 0;
}
'''),
 dict(id="c20-arm-encode", property="C20", flags="-Iir/be/arm ", needs="a constant of nine significant bits starting at an even position",
      breaks="such a constant is accepted as an ARM immediate and loses its top bit",
      edits=[("ir/be/arm/arm_transform.c", "unsigned high_pos = (32-nlz(val)+1) & ~1u;", "unsigned high_pos = (32-nlz(val)) & ~1u;")],
      demo=PRE + r'''
#include "be/arm/arm_transform.c"
int main(void)
{
	for (unsigned i = 0; i < 400000; ++i) {
		u32 v = some(i); arm_immediate_t r;
		if (try_encode_val_as_immediate(v, &r) && (r.rot & 1 || ror(r.imm_8, r.rot) != v)) { printf("%x encoded as %x ror %u\n", v, r.imm_8, r.rot); return 1; }
	}
	return 0;
}
'''),
 dict(id="c20-riscv-hilo", property="C20", flags="-Iir/be/riscv ", needs="a constant whose low twelve bits are exactly 0x800",
      breaks="the low part of such a RISC-V constant is +2048, which a 12-bit immediate cannot hold",
      edits=[("ir/be/riscv/riscv_bearch.c", "((uint32_t) val >> 11 & 1);", "(((uint32_t) val & 0xfff) > 0x800);")],
      demo=PRE + r'''
#include "riscv_bearch_t.h"
int main(void)
{
	for (unsigned i = 0; i < 400000; ++i) {
		u32 v = some(i) + (i & 1 ? 0 : 0xfffff000u); riscv_hi_lo_imm r = calc_hi_lo(v);
		if (r.hi < 0 || r.hi > 0xfffff || r.lo < -2048 || r.lo > 2047 || ((u32)r.hi << 12) + (u32)r.lo != v) { printf("%x split into %x %d\n", v, r.hi, r.lo); return 1; }
	}
	return 0;
}
'''),
 dict(id="c20-arm-ldrsb", property="C20", flags="-Iir/be/arm ", needs="a load of a signed byte at an offset between 256 and 4095",
      breaks="the offset is left in an ldrsb instruction, which has only eight bits for it",
      edits=[("ir/be/arm/arm_optimize.c", "if (is_store || !mode_is_signed(mode)) {", "if (is_store || !mode_is_signed(mode) || v > 255) {")],
      demo=PRE + r'''
#include "firm.h"
#include "arm_optimize.h"
int main(void)
{
	ir_init();
	ir_mode *m[] = { mode_Bu, mode_Bs, mode_Hu, mode_Hs, mode_Iu, mode_Is };
	for (int k = 0; k < 6; ++k) for (int st = 0; st < 2; ++st) for (int o = -9000; o < 9000; ++o) {
		int lim = k > 3 || (k < 2 && (st || k == 0)) ? 4095 : 255;
		if (arm_is_valid_offset(o, m[k], st) && (o < -lim || o > lim)) { printf("mode %d store %d offset %d\n", k, st, o); return 1; }
	}
	return 0;
}
'''),
 dict(id="c20-riscv-shift", property="C20", flags="-Iir/be/riscv -Wl,--allow-multiple-definition", needs="a right shift of a 16-bit value by exactly 16 (or of an 8-bit value by 8)",
      breaks="the operand of the shift is not extended, so upper register bits are shifted into the result",
      edits=[("ir/be/riscv/riscv_transform.c", "if (needs_extension && is_uimm5(extend + val)) {", "if (needs_extension && (is_uimm5(extend + val) || extend + val == RISCV_MACHINE_SIZE)) {")],
      demo=SEL + r'''
#include "be/riscv/riscv_transform.c"
#define I(nm, ex) ir_node *new_bd_riscv_##nm(dbg_info *d, ir_node *b, ir_node *l, ir_entity *e, int32_t i) { u32 x = V(l); FITS(i, 0, 31); return G(ex); }
#define R(nm, ex) ir_node *new_bd_riscv_##nm(dbg_info *d, ir_node *b, ir_node *l, ir_node *r) { u32 x = V(l), i = V(r) & 31; return G(ex); }
I(slli, x << i) I(srli, x >> i) I(srai, (u32)((int32_t)x >> i)) R(sll, x << i) R(srl, x >> i) R(sra, (u32)((int32_t)x >> i))
ir_node *new_bd_riscv_andi(dbg_info *d, ir_node *b, ir_node *l, ir_entity *e, int32_t i) { FITS(i, -2048, 2047); return G(V(l) & i); }
int main(void)
{
	start();
	ir_mode *ms[] = { mode_Bs, mode_Bu, mode_Hs, mode_Hu };
	for (int k = 0; k < 4; ++k) {
		unsigned bits = get_mode_size_bits(ms[k]); u32 mask = (1u << bits) - 1;
		X = new_r_Const_long(g, ms[k], 1);
		for (unsigned s = 0; s < 32; ++s) for (unsigned i = 0; i < 300; ++i) {
			vx = rnd();
			ir_node *c = new_r_Const_long(g, mode_Iu, s); u32 z = vx & mask; int32_t y = (int32_t)(z << (32 - bits)) >> (32 - bits);
			u32 a = V(gen_Shr(raw(op_Shr, ms[k], X, c))), b = V(gen_Shrs(raw(op_Shrs, ms[k], X, c)));
			if (bad || ((a ^ z >> s) & mask) || ((b ^ (u32)(y >> s)) & mask)) { printf("%u bits, %x shifted by %u: %x %x\n", bits, vx, s, a, b); return 1; }
		}
	}
	return 0;
}
'''),
 dict(id="c20-sparc-sethi", property="C20", flags="-Iir/be/sparc -Wl,--allow-multiple-definition", needs="a mask whose complement has its low bits clear up to bit 8, but not bit 9",
      breaks="the complement is built by a sethi that drops bits 8 and 9",
      edits=[("ir/be/sparc/sparc_transform.c", "if ((notvalue & 0x3ff) == 0) {", "if ((notvalue & 0xff) == 0) {")],
      demo=SEL + r'''
#include "be/sparc/sparc_transform.c"
#define B(nm, ex) ir_node *new_bd_sparc_##nm##_imm(dbg_info *d, ir_node *b, ir_node *l, ir_entity *e, int32_t i) { u32 x = V(l), c = i; FITS(i, -4096, 4095); return G(ex); } \
	ir_node *new_bd_sparc_##nm##_reg(dbg_info *d, ir_node *b, ir_node *l, ir_node *r) { u32 x = V(l), c = V(r); return G(ex); }
B(And, x & c) B(AndN, x & ~c) B(Or, x | c) B(OrN, x | ~c) B(Xor, x ^ c) B(XNor, ~(x ^ c))
ir_node *new_bd_sparc_SetHi(dbg_info *d, ir_node *b, ir_entity *e, int32_t i) { return G((u32)i & ~0x3ffu); }
int main(void)
{
	start();
	X = new_r_Unknown(g, mode_Iu);
	for (unsigned i = 0; i < 60000; ++i) {
		u32 v = i & 1 ? some(i + 70000) : ~some(i + 70000); vx = rnd();
		ir_node *c = new_r_Const_long(g, mode_Iu, v);
		ir_node *n = raw(op_And, mode_Iu, X, c); u32 a = V(gen_And(n)), o = V(gen_Or(n)), e = V(gen_Eor(n));
		if (bad || a != (vx & v) || o != (vx | v) || e != (vx ^ v)) { printf("%x with %x: and %x or %x xor %x\n", vx, v, a, o, e); return 1; }
	}
	return 0;
}
'''),
]
