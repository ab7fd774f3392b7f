/* C20: SPARC immediates (ir/be/sparc/sparc_transform.c, sparc_finish.c): a
 * signed 13-bit immediate, sethi for the upper 22 bits. */
#include "vfbe.h"
#include "sparc_nodes_attr.h"
#include "sparc_new_nodes.h"
#include "gen_sparc_new_nodes.h"
#include "gen_sparc_regalloc_if.h"
static bool vf_clean;
bool be_upper_bits_clean(ir_node const *n, ir_mode *m) { return vf_clean; }
ir_node *be_get_Start_proj(ir_graph *irg, arch_register_t const *r) { return G(0); }
#undef get_irn_n_edges
#define get_irn_n_edges(n) 1
#define arch_get_irn_register(n) ((arch_register_t const*)NULL)
#define arch_set_irn_register_out(n, i, r) ((void)(n))
#define arch_get_irn_register_out(n, i) ((arch_register_t const*)NULL)
#undef be_foreach_out
#define be_foreach_out(n, i) for (unsigned i = 0; i < 0; ++i)
#define get_sparc_attr(n) ((sparc_attr_t*)vf_attr_of(n))
#define get_sparc_attr_const(n) ((sparc_attr_t const*)vf_attr_of(n))
#define get_sparc_load_store_attr(n) ((sparc_load_store_attr_t*)vf_attr_of(n))
#define get_sparc_load_store_attr_const(n) ((sparc_load_store_attr_t const*)vf_attr_of(n))
#define be_get_IncSP_offset(n) vf_incsp
#define be_get_IncSP_pred(n) ((n)->in[1])
static int vf_incsp;
#define panic(...) do { vf_enc = false; ASSUME(0); } while (0)
#include "be/sparc/sparc_transform.c"
#define heights vf_heights2
#include "be/sparc/sparc_finish.c"
#define P dbg_info *d, ir_node *b
#define BIN2(nm, ex) ir_node *new_bd_sparc_##nm##_imm(P, ir_node *l, ir_entity *e, int32_t i) { u32 x = V(l), c = i; FITS(i, -4096, 4095); return G(ex); } \
	ir_node *new_bd_sparc_##nm##_reg(P, ir_node *l, ir_node *r) { u32 x = V(l), c = V(r); return G(ex); }
BIN2(Add, x + c) BIN2(Sub, x - c) BIN2(And, x & c) BIN2(AndN, x & ~c) BIN2(Or, x | c) BIN2(OrN, x | ~c) BIN2(Xor, x ^ c) BIN2(XNor, ~(x ^ c))
/* the same, leaving the condition codes of the result compared with zero */
BIN2(AndCCZero, x & c) BIN2(AndNCCZero, x & ~c) BIN2(OrCCZero, x | c) BIN2(OrNCCZero, x | ~c) BIN2(XorCCZero, x ^ c) BIN2(XNorCCZero, ~(x ^ c))
#define SHI(nm, ex) ir_node *new_bd_sparc_##nm##_imm(P, ir_node *l, ir_entity *e, int32_t i) { u32 x = V(l), c = i & 31; FITS(i, 0, 31); return G(ex); } \
	ir_node *new_bd_sparc_##nm##_reg(P, ir_node *l, ir_node *r) { u32 x = V(l), c = V(r) & 31; return G(ex); }
SHI(Sll, x << c) SHI(Srl, x >> c) SHI(Sra, (u32)((int64_t)(int32_t)x >> c))
static u32 vf_ca, vf_cb; static unsigned vf_ncmp;
ir_node *new_bd_sparc_Cmp_imm(P, ir_node *l, ir_entity *e, int32_t i) { FITS(i, -4096, 4095); vf_ca = V(l); vf_cb = i; ++vf_ncmp; return G(0); }
ir_node *new_bd_sparc_Cmp_reg(P, ir_node *l, ir_node *r) { vf_ca = V(l); vf_cb = V(r); ++vf_ncmp; return G(0); }
/* %hi() of the value */
ir_node *new_bd_sparc_SetHi(P, ir_entity *e, int32_t i) { return G((u32)i & ~0x3ffu); }
ir_node *new_bd_sparc_Save_reg(P, ir_node *s, ir_node *i) { return G(V(s) + V(i)); }
/* loads and stores: the address they denote, as the emitter prints it */
static ir_node *LS(ir_node *p, ir_node *p2, ir_mode *m, int32_t o, bool fe, bool rr)
{
	ir_node *n = GN(&vf_op_other, 2); n->in[1] = p; n->in[2] = p2;
	sparc_load_store_attr_t *a = get_sparc_load_store_attr(n);
	a->base.immediate_value = o; a->base.immediate_value_entity = NULL; a->load_store_mode = m; a->is_frame_entity = fe; a->is_reg_reg = rr;
	return n;
}
ir_node *new_bd_sparc_Ld_reg(P, ir_node *mem, ir_node *p, ir_node *p2, ir_mode *m) { return LS(p, p2, m, 0, false, true); }
ir_node *new_bd_sparc_St_reg(P, ir_node *mem, ir_node *v, ir_node *p, ir_node *p2, ir_mode *m) { return LS(p, p2, m, 0, false, true); }
ir_node *new_bd_sparc_Ldf_s(P, ir_node *p, ir_node *mem, ir_mode *m, ir_entity *e, int32_t o, bool fe) { return LS(p, NULL, m, o, fe, false); }
ir_node *new_bd_sparc_Stf_s(P, ir_node *v, ir_node *p, ir_node *mem, ir_mode *m, ir_entity *e, int32_t o, bool fe) { return LS(p, NULL, m, o, fe, false); }
static u32 addr(ir_node *n)
{
	sparc_load_store_attr_t *a = get_sparc_load_store_attr(n);
	if (a->is_reg_reg) { if (a->is_frame_entity || a->base.immediate_value || a->base.immediate_value_entity) vf_enc = false; return V(n->in[1]) + V(n->in[2]); }
	FITS(a->base.immediate_value, -4096, 4095);
	return V(n->in[1]) + (u32)a->base.immediate_value;
}
#ifndef BITS
#define BITS 32
#endif
#ifndef SIGN
#define SIGN 0
#endif
#define MASK ((u32)(((uint64_t)1 << BITS) - 1))
static int64_t num(u32 r) { r &= MASK; return SIGN && r >> (BITS - 1) ? (int64_t)r - ((int64_t)1 << BITS) : (int64_t)r; }
static bool same(u32 a, u32 b) { return ((a ^ b) & MASK) == 0; }
static ir_mode vf_gp;
static void sp_init(void)
{
	vf_mode_init(BITS, SIGN); vf_gp = vf_mode; vf_gp.size = 32; mode_gp = &vf_gp;
}
/* a register operand; its upper bits extend it when the backend says so */
static ir_node *OP(u32 x) { if (vf_clean) ASSUME(x == (u32)num(x)); return G(x); }
void h_const(void)
{
	IN(int32_t, v);
	ENSURE("value", V(create_int_const(NULL, v)) == (u32)v);
	ENSURE("encodable", vf_enc);
	REACH("end");
}
static ir_op vf_nop;
#define BIN(nm, OPP, ex) void h_##nm(void) { IN(u32, x); IN(u32, r); IN(bool, cl); sp_init(); vf_clean = cl; OPP = &vf_nop; \
	u32 c = (u32)num(r); ENSURE("const", same(V(gen_##nm(GB(&vf_nop, OP(x), GC(num(r), c), 0))), ex)); \
	c = r; ENSURE("value", same(V(gen_##nm(GB(&vf_nop, OP(x), OP(r), 0))), ex)); ENSURE("encodable", vf_enc); REACH("end"); }
BIN(Add, op_Add, x + c) BIN(Sub, op_Sub, x - c)
#define LOG(nm, OPP, f) void h_##nm(void) { IN(u32, x); IN(u32, r); IN(bool, cl); sp_init(); vf_clean = cl; OPP = &vf_nop; \
	u32 c = (u32)num(r); ENSURE("const", same(V(gen_##nm(GB(&vf_nop, OP(x), GC(num(r), c), 0))), x f c)); \
	ENSURE("value", same(V(gen_##nm(GB(&vf_nop, OP(x), OP(r), 0))), x f r)); \
	ir_node *nx = GN(op_Not, 1); nx->in[1] = G(x); V(nx) = ~x; \
	ENSURE("not.left", same(V(gen_##nm(GB(&vf_nop, nx, G(r), 0))), ~x f r)); \
	ENSURE("not.left.const", same(V(gen_##nm(GB(&vf_nop, nx, GC(num(r), c), 0))), ~x f c)); \
	ENSURE("not.right", same(V(gen_##nm(GB(&vf_nop, G(r), nx, 0))), r f ~x)); \
	ENSURE("encodable", vf_enc); REACH("end"); }
LOG(And, op_And, &) LOG(Or, op_Or, |) LOG(Eor, op_Eor, ^)
#define SH(nm, OPP, ex) void h_##nm(void) { IN(u32, x); IN(uint8_t, s0); IN(bool, cl); sp_init(); vf_clean = cl; OPP = &vf_nop; u32 s = s0 & 31; \
	if (BITS == 8) ASSUME(s < 8); \
	u32 z = x & MASK; int64_t y = z >> (BITS - 1) ? (int64_t)z - ((int64_t)1 << BITS) : (int64_t)z; \
	ENSURE("const", same(V(gen_##nm(GB(&vf_nop, OP(x), GC(s, s), 0))), ex)); \
	ENSURE("value", same(V(gen_##nm(GB(&vf_nop, OP(x), G(s), 0))), ex)); ENSURE("encodable", vf_enc); REACH("end"); }
SH(Shl, op_Shl, x << s) SH(Shr, op_Shr, z >> s) SH(Shrs, op_Shrs, (u32)(y >> s))
void h_Cmp(void)
{
	IN(u32, a); IN(u32, b); IN(bool, cl);
	sp_init(); vf_clean = cl; op_Cmp = &vf_nop;
	gen_Cmp(GB(&vf_nop, OP(a), OP(b), 0));
	ENSURE("left", vf_ca == (u32)num(a)); ENSURE("right", vf_cb == (u32)num(b));
	ENSURE("once", vf_ncmp == 1);
	REACH("end");
}
void h_CmpConst(void)
{
	IN(u32, a); IN(u32, b); IN(bool, cl);
	sp_init(); vf_clean = cl; op_Cmp = &vf_nop;
	gen_Cmp(GB(&vf_nop, OP(a), GC(num(b), (u32)num(b)), 0));
	ENSURE("left", vf_ca == (u32)num(a)); ENSURE("right", vf_cb == (u32)num(b));
	ENSURE("once", vf_ncmp == 1); ENSURE("encodable", vf_enc);
	REACH("end");
}
/* a logical operation compared with zero is done by the instruction that sets the flags */
void h_CmpZero(void)
{
	IN(u32, x); IN(u32, y); IN(uint8_t, k); IN(bool, c);
	static ir_op oa, oo, oe; ir_op *const ops[3] = { &oa, &oo, &oe };
	sp_init(); op_Cmp = &vf_nop; op_And = &oa; op_Or = &oo; op_Eor = &oe;
	u32 e = k % 3 == 0 ? x & y : k % 3 == 1 ? x | y : x ^ y;
	ir_node *r = gen_Cmp(GB(&vf_nop, GB(ops[k % 3], G(x), G(y), e), GC(0, 0), 0));
	ENSURE("value", V(r) == e && vf_ncmp == 0); ENSURE("encodable", vf_enc);
	REACH("end");
}
void h_Conv(void)
{
	IN(u32, x); IN(bool, cl);
	sp_init(); vf_clean = cl;
	ir_node *op = OP(x), *n = GN(&vf_op_other, 1); n->in[1] = op; op_Conv = &vf_op_other;
	static ir_mode to; to = vf_mode; n->mode = &to;
	to.size = 32; ENSURE("to32", V(gen_Conv(n)) == (u32)num(x));
	to.size = 16; ENSURE("to16", ((V(gen_Conv(n)) ^ (u32)num(x)) & 0xffff) == 0);
	to.size = 8; ENSURE("to8", ((V(gen_Conv(n)) ^ (u32)num(x)) & 0xff) == 0);
	ENSURE("encodable", vf_enc);
	REACH("end");
}
void h_unary(void)
{
	IN(u32, x);
	sp_init(); op_Minus = op_Not = &vf_op_other;
	ir_node *n = GN(&vf_op_other, 1); n->in[1] = G(x);
	ENSURE("minus", same(V(gen_Minus(n)), 0u - x));
	ENSURE("not", same(V(gen_Not(n)), ~x));
	REACH("end");
}
void h_immconst(void)
{
	IN(int32_t, v);
	ENSURE("value", V(create_constant_from_immediate(G(0), v)) == (u32)v);
	ENSURE("encodable", vf_enc);
	REACH("end");
}
#define FIN(nm, f, k) void h_##nm(void) { IN(int32_t, o); IN(u32, p); ir_node *n = GN(&vf_op_other, 1); n->in[1 + k] = G(p); \
	get_sparc_attr(n)->immediate_value = o; f(n); \
	if (vf_repl) { ENSURE("value", V(vf_repl) == p + (u32)o); REACH("split"); } \
	else { ENSURE("kept", o >= -4096 && o <= 4095 && get_sparc_attr(n)->immediate_value == o); REACH("kept"); } ENSURE("encodable", vf_enc); }
FIN(frameaddr, finish_sparc_FrameAddr, n_sparc_FrameAddr_base) FIN(save, finish_sparc_Save, n_sparc_Save_stack)
void h_incsp(void)
{
	IN(int32_t, o); IN(u32, p); ASSUME(o > INT32_MIN);
	ir_node *n = GN(&vf_op_other, 1); n->in[1] = G(p);
	vf_incsp = o;
	finish_be_IncSP(n);
	if (vf_repl) { ENSURE("value", V(vf_repl) == p - (u32)o); REACH("split"); }
	/* emitted as add of -o, or as sub of o */
	else { ENSURE("kept", (o > 0 ? -o : o) >= -4096); REACH("kept"); }
	ENSURE("encodable", vf_enc);
}
#define LDST(nm, f, k, fl) void h_##nm(void) { IN(int32_t, o); IN(u32, p); vf_mode_init(fl, 0); \
	ir_node *n = GN(&vf_op_other, 3); n->in[1] = n->in[2] = n->in[3] = G(0); n->in[1 + k] = G(p); \
	sparc_load_store_attr_t *a = get_sparc_load_store_attr(n); a->base.immediate_value = o; a->load_store_mode = &vf_mode; a->is_frame_entity = true; a->is_reg_reg = false; \
	f(n); \
	if (vf_repl) { ENSURE("address", addr(vf_repl) == p + (u32)o); ENSURE("mode", get_sparc_load_store_attr(vf_repl)->load_store_mode == &vf_mode); REACH("split"); } \
	else { ENSURE("kept", o >= -4096 && o <= 4095 && a->base.immediate_value == o); REACH("kept"); } ENSURE("encodable", vf_enc); }
LDST(ld, finish_sparc_Ld, n_sparc_Ld_ptr, 32) LDST(st, finish_sparc_St, n_sparc_St_ptr, 32) LDST(ldf, finish_sparc_Ldf, n_sparc_Ldf_ptr, 64) LDST(stf, finish_sparc_Stf, n_sparc_Stf_ptr, 64)
