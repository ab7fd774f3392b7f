/* C20: RISC-V and MIPS immediates and sub-word values (ir/be/riscv, ir/be/mips).
 * A register holding a value of an 8 or 16 bit mode has that value in its low
 * bits; the upper bits are arbitrary. */
struct ir_node;
static struct ir_node *vf_sel(struct ir_node *n);
#ifdef COND
#define VF_TRANSFORM(n) if ((n)->op == op_Cmp) return vf_sel(n)
#endif
#include "vfbe.h"
#ifdef MIPS
#define ARCH(x) mips_##x
#define NEW(x) new_bd_mips_##x
#include "mips_nodes_attr.h"
#include "gen_mips_new_nodes.h"
#include "gen_mips_regalloc_if.h"
#else
#define ARCH(x) riscv_##x
#define NEW(x) new_bd_riscv_##x
#include "riscv_nodes_attr.h"
#include "gen_riscv_new_nodes.h"
#include "gen_riscv_regalloc_if.h"
#endif
static ir_mode vf_m32s, vf_m32u, vf_opm, vf_resm;
ir_node *be_get_Start_proj(ir_graph *irg, arch_register_t const *r) { return G(0); }
bool be_match_immediate(ir_node const *n, ir_tarval **t, ir_entity **e, unsigned *k) { return false; }
#define arch_get_irn_register(n) ((arch_register_t const*)NULL)
ir_op *op_Builtin;
#undef is_Proj
#define is_Proj(n) vf_isproj
static bool vf_isproj; static ir_op vf_op_load; 
#undef get_Proj_pred
#define get_Proj_pred(n) (vf_predn)
static ir_node *vf_predn;
#undef is_Load
#define is_Load(n) (vf_isload)
static bool vf_isload;
#define panic(...) do { vf_enc = false; ASSUME(0); } while (0)
#undef TODO
#define TODO(n) do { vf_todo = true; return NULL; } while (0)
static bool vf_todo;
#define I(nm, lo, hi, ex) ir_node *NEW(nm)(dbg_info *d, ir_node *b, ir_node *l, ir_entity *e, int32_t i) { u32 x = V(l); FITS(i, lo, hi); return G(ex); }
#define R(nm, ex) ir_node *NEW(nm)(dbg_info *d, ir_node *b, ir_node *l, ir_node *r) { u32 x = V(l), c = V(r); return G(ex); }
#define SRA(x, s) ((u32)((int64_t)(int32_t)(x) >> (s)))
static ir_node *vf_br; static u32 vf_ba, vf_bb; static int vf_bc = -1; 
#ifdef MIPS
#include "mips_cconv.h"
#include "be/mips/mips_transform.c"
I(addiu, -32768, 32767, x + i) R(addu, x + c) R(subu, x - c)
I(andi, 0, 65535, x & i) I(ori, 0, 65535, x | i) I(xori, 0, 65535, x ^ i) R(and, x & c) R(or, x | c) R(xor, x ^ c) R(nor, ~(x | c))
I(sll, 0, 31, x << (i & 31)) I(srl, 0, 31, x >> (i & 31)) I(sra, 0, 31, SRA(x, i & 31)) R(sllv, x << (c & 31)) R(srlv, x >> (c & 31)) R(srav, SRA(x, c & 31))
R(slt, (int32_t)x < (int32_t)c) R(sltu, x < c) I(sltiu, -32768, 32767, x < (u32)i)
ir_node *new_bd_mips_lui(dbg_info *d, ir_node *b, ir_entity *e, int32_t i) { FITS(i, 0, 65535); return G((u32)i << 16); }
ir_node *new_bd_mips_bcc(dbg_info *d, ir_node *b, ir_node *l, ir_node *r, mips_cond_t c)
{ int32_t x = V(l), y = V(r); switch (c) { case mips_cc_eq: vf_bc = x == y; break; case mips_cc_ne: vf_bc = x != y; break; default: vf_enc = false; } return G(0); }
ir_node *new_bd_mips_bcc_z(dbg_info *d, ir_node *b, ir_node *l, mips_cond_t c)
{ int32_t x = V(l); switch (c) { case mips_cc_ltz: vf_bc = x < 0; break; case mips_cc_gez: vf_bc = x >= 0; break; case mips_cc_lez: vf_bc = x <= 0; break; case mips_cc_gtz: vf_bc = x > 0; break; default: vf_enc = false; } return G(0); }
#else
static int vf_incsp;
#define be_get_IncSP_offset(n) vf_incsp
#define be_get_IncSP_pred(n) ((n)->in[1])
#define be_peephole_IncSP_IncSP(n) false
#define be_has_only_one_user(n) true
#undef sched_prev
#define sched_prev(n) (vf_prev)
#define sched_remove(n) ((void)0)
#undef is_riscv_irn
#define is_riscv_irn(n) (true)
#define get_riscv_irn_opcode(n) ((n) == vf_prev ? vf_opc_pred : vf_opc)
static ir_node *vf_prev; static int vf_opc, vf_opc_pred;
#include "be/riscv/riscv_transform.c"
#include "be/riscv/riscv_finish.c"
#include "be/riscv/riscv_bearch.c"
I(addi, -2048, 2047, x + i) R(add, x + c) R(sub, x - c)
I(andi, -2048, 2047, x & i) I(ori, -2048, 2047, x | i) I(xori, -2048, 2047, x ^ i) R(and, x & c) R(or, x | c) R(xor, x ^ c)
I(slli, 0, 31, x << (i & 31)) I(srli, 0, 31, x >> (i & 31)) I(srai, 0, 31, SRA(x, i & 31)) R(sll, x << (c & 31)) R(srl, x >> (c & 31)) R(sra, SRA(x, c & 31))
R(slt, (int32_t)x < (int32_t)c) R(sltu, x < c) I(sltiu, -2048, 2047, x < (u32)i)
ir_node *new_bd_riscv_lui(dbg_info *d, ir_node *b, ir_entity *e, int32_t i) { FITS(i, 0, 0xfffff); return G((u32)i << 12); }
ir_node *new_bd_riscv_bcc(dbg_info *d, ir_node *b, ir_node *l, ir_node *r, riscv_cond_t c)
{
	int32_t x = V(l), y = V(r);
	switch (c) {
	case riscv_cc_eq: vf_bc = x == y; break; case riscv_cc_ne: vf_bc = x != y; break; case riscv_cc_lt: vf_bc = x < y; break; case riscv_cc_ge: vf_bc = x >= y; break;
	case riscv_cc_ltu: vf_bc = (u32)x < (u32)y; break; case riscv_cc_geu: vf_bc = (u32)x >= (u32)y; break; default: vf_enc = false;
	}
	return G(0);
}
#endif
static ir_node *vf_sel(ir_node *n) { return gen_Cmp(n); }
#ifndef BITS
#define BITS 32
#endif
#ifndef SIGN
#define SIGN 0
#endif
#define MASK ((u32)(((uint64_t)1 << BITS) - 1))
/* the value of a register as a number of the mode */
static int64_t num(u32 r) { r &= MASK; return SIGN && r >> (BITS - 1) ? (int64_t)r - ((int64_t)1 << BITS) : (int64_t)r; }
static bool same(u32 a, u32 b) { return ((a ^ b) & MASK) == 0; }
void h_const(void)
{
	IN(u32, v);
	vf_mode_init(BITS, SIGN);
	ir_node *n = gen_Const(GC(num(v), v));
	ENSURE("value", same(V(n), v)); ENSURE("encodable", vf_enc && !vf_todo);
	REACH("end");
}
static ir_op vf_nop;
#define BIN(nm, OPP, ex) void h_##nm(void) { IN(u32, x); IN(u32, r); vf_mode_init(BITS, SIGN); OPP = &vf_nop; \
	u32 c = (u32)num(r); ir_node *n = gen_##nm(GB(&vf_nop, G(x), GC(num(r), c), 0)); \
	ENSURE("const", same(V(n), ex)); c = r; n = gen_##nm(GB(&vf_nop, G(x), G(r), 0)); ENSURE("value", same(V(n), ex)); ENSURE("encodable", vf_enc && !vf_todo); REACH("end"); }
BIN(Add, op_Add, x + c) BIN(Sub, op_Sub, x - c) BIN(And, op_And, x & c) BIN(Or, op_Or, x | c) BIN(Eor, op_Eor, x ^ c)
/* shifts by an amount below 32 */
#define SH(nm, OPP, ex) void h_##nm(void) { IN(u32, x); IN(uint8_t, s0); vf_mode_init(BITS, SIGN); OPP = &vf_nop; u32 s = s0 & 31; \
	u32 z = x & MASK; int64_t y = z >> (BITS - 1) ? (int64_t)z - ((int64_t)1 << BITS) : (int64_t)z; \
	ir_node *n = gen_##nm(GB(&vf_nop, G(x), GC(s, s), 0)); ENSURE("const", same(V(n), ex)); \
	n = gen_##nm(GB(&vf_nop, G(x), G(s), 0)); ENSURE("value", same(V(n), ex)); ENSURE("encodable", vf_enc && !vf_todo); REACH("end"); }
SH(Shl, op_Shl, x << s) SH(Shr, op_Shr, z >> s) SH(Shrs, op_Shrs, (u32)(y >> s))
void h_Conv(void)
{
	IN(u32, x); IN(uint8_t, l);
	vf_mode_init(BITS, SIGN);
	vf_isproj = l & 1; vf_isload = l & 2;
	if (vf_isproj && vf_isload) ASSUME(x == (u32)num(x));   /* a loaded value is extended according to its mode */
	ir_node *op = G(x), *n = GN(&vf_op_other, 1); n->in[1] = op; op_Conv = &vf_op_other;
	vf_resm = vf_mode; n->mode = &vf_resm;
	vf_resm.size = 32; ENSURE("to32", V(gen_Conv(n)) == (u32)num(x));
	vf_resm.size = 16; ENSURE("to16", ((V(gen_Conv(n)) ^ (u32)num(x)) & 0xffff) == 0);
	vf_resm.size = 8; ENSURE("to8", ((V(gen_Conv(n)) ^ (u32)num(x)) & 0xff) == 0);
	ENSURE("encodable", vf_enc && !vf_todo);
	REACH("end");
}
void h_unary(void)
{
	IN(u32, x);
	vf_mode_init(BITS, SIGN); op_Minus = op_Not = &vf_op_other;
	ir_node *n = GN(&vf_op_other, 1); n->in[1] = G(x);
	ENSURE("minus", same(V(gen_Minus(n)), 0u - x));
	ENSURE("not", same(V(gen_Not(n)), ~x));
	ENSURE("encodable", vf_enc && !vf_todo);
	REACH("end");
}
void h_saturate(void)
{
	IN(u32, x);
	vf_mode_init(32, 0); op_Builtin = &vf_op_other;
	ir_node *n = GN(&vf_op_other, 2); n->in[1] = n->in[2] = G(x);
	ENSURE("value", V(gen_saturating_increment(n)) == (x == 0xffffffffu ? x : x + 1));
	ENSURE("encodable", vf_enc);
	REACH("end");
}
static bool holds(unsigned rel, int64_t a, int64_t b) { return a == b ? rel & ir_relation_equal : a < b ? rel & ir_relation_less : rel & ir_relation_greater; }
static ir_node *vf_mkcmp(u32 a, u32 b, unsigned rel) { ir_node *n = GB(&vf_nop, G(a), G(b), 0); op_Cmp = &vf_nop; n->attr.cmp.relation = rel; return n; }
/* a comparison as a value: the set instruction of the strict relations */
void h_Cmp(void)
{
	IN(u32, a); IN(u32, b);
	vf_mode_init(BITS, SIGN);
	ir_node *n = gen_Cmp(vf_mkcmp(a, b, ir_relation_less)); ENSURE("less", V(n) == (u32)holds(ir_relation_less, num(a), num(b)));
	n = gen_Cmp(vf_mkcmp(a, b, ir_relation_greater)); ENSURE("greater", V(n) == (u32)holds(ir_relation_greater, num(a), num(b)));
	ENSURE("encodable", vf_enc && !vf_todo);
	REACH("end");
}
#ifdef COND
static ir_op vf_cop;
void h_Cond(void)
{
	IN(u32, a); IN(u32, b);
	vf_mode_init(BITS, SIGN);
	ir_node *n = GN(&vf_cop, 1); op_Cond = &vf_cop;
	for (unsigned r = 1; r < 7; ++r) {
		n->in[1] = vf_mkcmp(a, b, r); vf_bc = -1; 
		gen_Cond(n);
		ENSURE("taken", vf_bc == holds(r, num(a), num(b)));
	}
#ifdef MIPS
	/* against the constant zero */
	for (unsigned r = 1; r < 7; ++r) {
		ir_node *c = GB(&vf_nop, G(a), GC(0, 0), 0); c->attr.cmp.relation = r; n->in[1] = c; vf_bc = -1; 
		gen_Cond(n);
		ENSURE("zero", vf_bc == holds(r, num(a), 0));
	}
#endif
	ENSURE("encodable", vf_enc && !vf_todo);
	REACH("end");
}
#endif
/* base and offset of a load or store */
void h_addr(void)
{
	IN(int32_t, o); IN(u32, p); IN(bool, add);
	vf_mode_init(32, 0); op_Add = &vf_nop; op_Member = &vf_op_not;
	ir_node *n = add ? GB(&vf_nop, G(p), GC(o, (u32)o), p + (u32)o) : G(p);
	ARCH(addr) a = make_addr(n);
	ENSURE("address", V(a.base) + (u32)a.val == (add ? p + (u32)o : p));
#ifdef MIPS
	FITS(a.val, -32768, 32767);
#else
	FITS(a.val, -2048, 2047);
#endif
	ENSURE("encodable", vf_enc && a.ent == NULL);
	REACH("end");
}
#ifndef MIPS
void h_hilo(void)
{
	IN(int32_t, v);
	riscv_hi_lo_imm i = calc_hi_lo(v);
	ENSURE("sum", ((u32)i.hi << 12) + (u32)i.lo == (u32)v);
	ENSURE("encodable", i.hi >= 0 && i.hi <= 0xfffff && i.lo >= -2048 && i.lo <= 2047);
	REACH("end");
}
void h_immconst(void)
{
	IN(int32_t, v);
	ENSURE("value", V(create_constant_from_immediate(G(0), v)) == (u32)v);
	ENSURE("encodable", vf_enc);
	REACH("end");
}
void h_frameaddr(void)
{
	IN(int32_t, o); IN(u32, p);
	ir_node *n = GN(&vf_op_other, 1); n->in[1 + n_riscv_FrameAddr_base] = G(p);
	get_riscv_immediate_attr(n)->val = o;
	finish_riscv_FrameAddr(n);
	if (vf_repl) { ENSURE("address", V(vf_repl) == p + (u32)o); REACH("split"); }
	else { ENSURE("kept", o >= -2048 && o <= 2047 && get_riscv_immediate_attr(n)->val == o); REACH("kept"); }
	ENSURE("encodable", vf_enc);
}
void h_ldst(void)
{
	IN(int32_t, o); IN(u32, p);
	ir_node *n = GN(&vf_op_other, 3), *b = G(p); n->in[1] = n->in[2] = n->in[3] = G(0); n->in[1 + n_riscv_sw_base] = b;
	get_riscv_immediate_attr(n)->val = o;
	finish_riscv_load_store_offsets(n);
	int32_t v = get_riscv_immediate_attr(n)->val;
	ENSURE("address", V(n->in[1 + n_riscv_sw_base]) + (u32)v == p + (u32)o);
	ENSURE("encodable", vf_enc && v >= -2048 && v <= 2047);
	ENSURE("operands", n_riscv_lb_base == n_riscv_sw_base && n_riscv_lbu_base == n_riscv_sw_base && n_riscv_lh_base == n_riscv_sw_base && n_riscv_lhu_base == n_riscv_sw_base && n_riscv_lw_base == n_riscv_sw_base && n_riscv_sb_base == n_riscv_sw_base && n_riscv_sh_base == n_riscv_sw_base);
	REACH("end");
}
void h_incsp(void)
{
	IN(int32_t, o); IN(u32, p); ASSUME(o > INT32_MIN);
	ir_node *n = GN(&vf_op_other, 1); n->in[1] = G(p);
	vf_incsp = o;
	finish_be_IncSP(n);
	if (vf_repl) { ENSURE("address", V(vf_repl) == p - (u32)o); REACH("split"); }
	else { ENSURE("kept", -o >= -2048 && -o <= 2047); REACH("kept"); }
	ENSURE("encodable", vf_enc);
}
/* two shifts by constants in a row */
static u32 shift(int op, u32 x, unsigned s) { return op == iro_riscv_slli ? x << s : op == iro_riscv_srli ? x >> s : SRA(x, s); }
void h_shiftpair(void)
{
	IN(uint8_t, s); IN(uint8_t, t); IN(uint8_t, k); IN(uint8_t, k2); IN(u32, x);
	int const ops[3] = { iro_riscv_slli, iro_riscv_srli, iro_riscv_srai };
	ASSUME(s < 32 && t < 32);
	ir_node *a = GN(&vf_op_other, 1), *b = GN(&vf_op_other, 1);
	vf_opc_pred = ops[k % 3]; vf_opc = ops[k2 % 3]; vf_prev = a;
	a->in[1] = G(x); b->in[1] = a;
	get_riscv_immediate_attr(a)->val = s; get_riscv_immediate_attr(b)->val = t;
	peephole_riscv_shift(b);
	if (vf_repl) { ENSURE("value", V(vf_repl) == shift(vf_opc, shift(vf_opc_pred, x, s), t)); REACH("combined"); }
	ENSURE("encodable", vf_enc);
}
#endif
