/* C20: ARM immediates (ir/be/arm/arm_transform.c, arm_optimize.c). An ARM data
 * processing immediate is an 8-bit value rotated right by an even amount. */
#include "vfbe.h"
#ifndef LEFT
#define LEFT 0
#endif
#include "arm_nodes_attr.h"
#include "arm_new_nodes.h"
#include "arm_optimize.h"
#include "gen_arm_new_nodes.h"
#include "gen_arm_regalloc_if.h"
#define get_arm_Address_attr(n) ((arm_Address_attr_t*)vf_attr_of(n))
#define get_arm_load_store_attr(n) ((arm_load_store_attr_t*)vf_attr_of(n))
#ifdef OPTIMIZE
static int vf_incsp, vf_incsum; static unsigned vf_incn; static bool vf_incok = true;
#define be_peephole_IncSP_IncSP(n) false
#define be_get_IncSP_offset(n) vf_incsp
#define be_get_IncSP_no_align(n) false
static bool arm_imm_ok(u32 v);
#define be_set_IncSP_offset(n, o) ((void)(vf_incsum += (u32)(o), ++vf_incn, vf_incok &= arm_imm_ok(o)))
#define be_new_IncSP(b, s, o, a) (vf_incsum += (u32)(o), ++vf_incn, vf_incok &= arm_imm_ok(o), G(0))
#undef edges_reroute_except
#define edges_reroute_except(a, b, c) ((void)0)
#undef sched_next
#define sched_next(n) (n)
#define is_arm_Str(n) (vf_store)
#define is_arm_Ldr(n) (!vf_store)
static bool vf_store;
#define be_errorf(...) ((void)0)
#include "be/arm/arm_optimize.c"
#undef arm_gen_vals_from_word
#endif
static u32 ror(u32 v, unsigned r) { r &= 31; return r ? v >> r | v << (32 - r) : v; }
/* decoding of an immediate operand, and its encodability */
static u32 DEC(unsigned imm, unsigned r) { FITS(imm, 0, 255); if (r > 30 || r & 1) vf_enc = false; return ror(imm, r); }
static bool arm_imm_ok(u32 v) { bool ok = false; u32 w = (int32_t)v < 0 ? 0u - v : v; for (unsigned r = 0; r < 32; r += 2) ok |= ror(w, 32 - r) <= 255; return ok; }
#include "be/arm/arm_transform.c"
#define IMM2(nm, ex) ir_node *new_bd_arm_##nm##_imm(dbg_info *d, ir_node *b, ir_node *l, unsigned char i, unsigned char r) { u32 x = V(l), c = DEC(i, r); return G(ex); } \
	ir_node *new_bd_arm_##nm##_reg(dbg_info *d, ir_node *b, ir_node *l, ir_node *rr) { u32 x = V(l), c = V(rr); return G(ex); }
IMM2(Add, x + c) IMM2(Sub, x - c) IMM2(Rsb, c - x) IMM2(And, x & c) IMM2(Bic, x & ~c) IMM2(Orr, x | c) IMM2(Eor, x ^ c)
ir_node *new_bd_arm_Mov_imm(dbg_info *d, ir_node *b, unsigned char i, unsigned char r) { return G(DEC(i, r)); }
ir_node *new_bd_arm_Mvn_imm(dbg_info *d, ir_node *b, unsigned char i, unsigned char r) { return G(~DEC(i, r)); }
/* flags of a comparison: the pair compared, as a difference in 33 bits */
static u32 vf_ca, vf_cb; static bool vf_cmn;
ir_node *new_bd_arm_Cmp_imm(dbg_info *d, ir_node *b, ir_node *l, unsigned char i, unsigned char r, bool p, bool u) { vf_ca = V(l); vf_cb = DEC(i, r); vf_cmn = false; return G(0); }
ir_node *new_bd_arm_Cmn_imm(dbg_info *d, ir_node *b, ir_node *l, unsigned char i, unsigned char r, bool p, bool u) { vf_ca = V(l); vf_cb = DEC(i, r); vf_cmn = true; return G(0); }
ir_node *new_bd_arm_Cmp_reg(dbg_info *d, ir_node *b, ir_node *l, ir_node *rr, bool p, bool u) { vf_ca = V(l); vf_cb = V(rr); vf_cmn = false; return G(0); }
ir_node *new_bd_arm_Mov_reg_shift_imm(dbg_info *d, ir_node *b, ir_node *l, arm_shift_modifier_t m, unsigned s)
{
	u32 x = V(l); FITS(s, 0, m == ARM_SHF_LSR_IMM || m == ARM_SHF_ASR_IMM ? 32 : 31);
	switch (m) {
	case ARM_SHF_LSL_IMM: return G(x << s);
	case ARM_SHF_LSR_IMM: return G(s >= 32 ? 0 : x >> s);
	case ARM_SHF_ASR_IMM: return G((u32)((int64_t)(int32_t)x >> s));
	case ARM_SHF_ROR_IMM: return G(ror(x, s));
	default: vf_enc = false; return G(0);
	}
}
ir_node *new_bd_arm_Mov_reg_shift_reg(dbg_info *d, ir_node *b, ir_node *l, ir_node *r, arm_shift_modifier_t m)
{
	u32 x = V(l), s = V(r) & 255;
	switch (m) {
	case ARM_SHF_LSL_REG: return G(s >= 32 ? 0 : x << s);
	case ARM_SHF_LSR_REG: return G(s >= 32 ? 0 : x >> s);
	case ARM_SHF_ASR_REG: return G((u32)((int64_t)(int32_t)x >> (s >= 32 ? 32 : s)));
	default: vf_enc = false; return G(0);
	}
}
#undef ARCHREG
bool be_pattern_is_rotl(ir_node const *n, ir_node **l, ir_node **r) { return false; }
bool arm_is_stub;
ir_op *op_arm_Mov;
ir_tarval *tarval_convert_to(ir_tarval const *t, ir_mode *m) { return (ir_tarval*)t; }
/* contract of try_encode_val_as_immediate, as discharged by h_encode */
bool vf_encode(uint32_t val, arm_immediate_t *const res)
{
	static unsigned k; ++k;
	if (VF_IN("enc_no", k, bool)) return false;
	res->imm_8 = VF_IN("enc_imm", k, uint8_t); res->rot = VF_IN("enc_rot", k, uint8_t);
	ASSUME(res->rot < 32 && !(res->rot & 1) && ror(res->imm_8, res->rot) == val);
	return true;
}
/* ---------------------------------------------------------------- harnesses */
void h_vals(void)
{
	IN(u32, v);
	arm_vals r; arm_gen_vals_from_word(v, &r);
	ENSURE("count", r.ops >= 1 && r.ops <= 4);
	u32 s = 0, o = 0; bool enc = true;
	for (unsigned i = 0; i < 4; ++i) if (i < r.ops) { s += ror(r.values[i], r.rors[i]); o |= ror(r.values[i], r.rors[i]); enc &= r.rors[i] < 32 && !(r.rors[i] & 1); }
	ENSURE("encodable", enc);
	ENSURE("sum", s == v);
	ENSURE("union", o == v);
	REACH("end");
}
void h_encode(void)
{
	IN(u32, v);
	arm_immediate_t r;
	bool ok = try_encode_val_as_immediate(v, &r);
	if (ok) { ENSURE("encodable", r.rot < 32 && !(r.rot & 1)); ENSURE("decodes", ror(r.imm_8, r.rot) == v); REACH("yes"); }
	else REACH("no");
}
void h_match(void)
{
	IN(int32_t, v); IN(uint8_t, m);
	arm_immediate_t r;
	ir_node *c = GC(v, (u32)v);
	imm_match_t k = try_encode_as_immediate(c, &r, (imm_match_t)(m & 7));
	ENSURE("allowed", k == IMM_NONE || (k & m) == k);
	if (k != IMM_NONE) {
		u32 w = ror(r.imm_8, r.rot);
		ENSURE("encodable", r.rot < 32 && !(r.rot & 1));
		ENSURE("decodes", k == IMM_POS ? w == (u32)v : k == IMM_NOT ? ~w == (u32)v : k == IMM_NEG ? 0u - w == (u32)v : false);
		REACH("match");
	}
	ENSURE("other", try_encode_as_immediate(G(5), &r, IMM_POS) == IMM_NONE);
}
void h_const(void)
{
	IN(u32, v);
	ir_node *n = create_const_graph_value(NULL, NULL, v);
	ENSURE("value", V(n) == v);
	ENSURE("encodable", vf_enc);
	REACH("end");
}
void h_constnode(void)
{
	IN(u32, v);
	IN(uint8_t, sg);
	vf_mode_init(32, sg & 1);
	ir_node *n = create_const_graph(GC(sg & 1 ? (long)(int32_t)v : (long)v, v), NULL);
	ENSURE("value", V(n) == v);
	ENSURE("encodable", vf_enc);
	REACH("end");
}
void h_extension(void)
{
	IN(u32, x);
	vf_mode_init(8, 0);  ENSURE("zext8", V(gen_extension(NULL, NULL, G(x), &vf_mode)) == (x & 0xff));
	vf_mode_init(16, 0); ENSURE("zext16", V(gen_extension(NULL, NULL, G(x), &vf_mode)) == (x & 0xffff));
	vf_mode_init(8, 1);  ENSURE("sext8", V(gen_extension(NULL, NULL, G(x), &vf_mode)) == (u32)(int8_t)x);
	vf_mode_init(16, 1); ENSURE("sext16", V(gen_extension(NULL, NULL, G(x), &vf_mode)) == (u32)(int16_t)x);
	vf_mode_init(32, 1); ENSURE("ext32", V(gen_extension(NULL, NULL, G(x), &vf_mode)) == x);
	ENSURE("encodable", vf_enc);
	REACH("end");
}
/* binary operations with a constant on either side, through the transformer */
static ir_op vf_nop;
#define BIN(nm, OPP, ex) void h_##nm(void) { \
	IN(u32, x); IN(int32_t, c); vf_mode_init(32, 1); OPP = &vf_nop; \
	ir_node *k = GC(c, (u32)c), *n; u32 a = LEFT ? (u32)c : x, b = LEFT ? x : (u32)c; n = LEFT ? GB(&vf_nop, k, G(x), 0) : GB(&vf_nop, G(x), k, 0); \
	ENSURE("value", V(gen_##nm(n)) == (u32)(ex)); ENSURE("encodable", vf_enc); REACH("end"); }
BIN(Add, op_Add, a + b) BIN(Sub, op_Sub, a - b) BIN(And, op_And, a & b) BIN(Or, op_Or, a | b) BIN(Eor, op_Eor, a ^ b)
/* and with a complemented operand */
void h_bic(void)
{
	IN(u32, x); IN(int32_t, c); vf_mode_init(32, 1); op_And = &vf_nop;
	ir_node *k = GC(c, (u32)c), *nt = GN(op_Not, 1); nt->in[1] = k; V(nt) = ~(u32)c;
	ENSURE("right", V(gen_And(GB(&vf_nop, G(x), nt, 0))) == (x & ~(u32)c));
	ENSURE("left", V(gen_And(GB(&vf_nop, nt, G(x), 0))) == (x & ~(u32)c));
	ir_node *nx = GN(op_Not, 1); nx->in[1] = G(x); V(nx) = ~x;
	ENSURE("notvar", V(gen_And(GB(&vf_nop, nx, k, 0))) == (~x & (u32)c));
	ENSURE("encodable", vf_enc);
	REACH("end");
}
void h_shift(void)
{
	IN(u32, x); IN(uint8_t, s); vf_mode_init(32, 0); vf_mode.modulo_shift = 256;
	ir_node *k = GC(s, s);
	ENSURE("Shl", V(gen_Shl(GB(&vf_nop, G(x), k, 0))) == (s >= 32 ? 0 : x << s));
	ENSURE("Shr", V(gen_Shr(GB(&vf_nop, G(x), k, 0))) == (s >= 32 ? 0 : x >> s));
	ENSURE("Shrs", V(gen_Shrs(GB(&vf_nop, G(x), k, 0))) == (u32)((int64_t)(int32_t)x >> (s >= 32 ? 32 : s)));
	ENSURE("encodable", vf_enc);
	REACH("end");
}
/* a comparison leaves the flags of (left - constant): Z, N, V, and C for left >= constant */
void h_cmp(void)
{
	IN(u32, x); IN(u32, c); IN(uint8_t, sg);
	vf_mode_init(32, sg & 1);
	ir_node *k = GC(sg & 1 ? (long)(int32_t)c : (long)c, c);
	op_Cmp = &vf_nop;
	gen_Cmp(GB(&vf_nop, G(x), k, 0));
	ENSURE("left", vf_ca == x);
	u32 res = vf_cmn ? vf_ca + vf_cb : vf_ca - vf_cb;
	bool carry = vf_cmn ? (uint64_t)vf_ca + vf_cb >> 32 : vf_ca >= vf_cb;
	int64_t wide = vf_cmn ? (int64_t)(int32_t)vf_ca + (int32_t)vf_cb : (int64_t)(int32_t)vf_ca - (int32_t)vf_cb;
	bool ovf = wide != (int32_t)wide;
	ENSURE("eq", (res == 0) == (x == c));
	ENSURE("unsigned", carry == (x >= c));
	ENSURE("signed", ((int32_t)res < 0) != ovf ? (int32_t)x < (int32_t)c : (int32_t)x >= (int32_t)c);
	ENSURE("encodable", vf_enc);
	REACH("end");
}
#ifdef OPTIMIZE
void h_incsp(void)
{
	IN(int32_t, o); ASSUME(o > INT32_MIN);
	vf_incsp = o; ir_node *n = G(0);
	peephole_be_IncSP(n);
	if (vf_incn == 0) { ENSURE("untouched.encodable", arm_imm_ok(o)); REACH("kept"); }
	else { ENSURE("sum", (u32)vf_incsum == (u32)o); ENSURE("encodable", vf_incok); REACH("split"); }
}
static bool ldst_ok(long o, unsigned bits, bool sg, bool store) { long m = bits == 32 || (bits == 8 && (store || !sg)) ? 4095 : 255; return o >= -m && o <= m; }
void h_validoffset(void)
{
	IN(int32_t, o); IN(uint8_t, sel); bool st = sel & 1, sg = sel & 2; unsigned bits = sel & 4 ? 8 : sel & 8 ? 16 : 32;
	vf_mode_init(bits, sg);
	ENSURE("fits", !arm_is_valid_offset(o, &vf_mode, st) || ldst_ok(o, bits, sg, st));
	REACH("end");
}
void h_ldst(void)
{
	IN(int32_t, o); IN(uint8_t, sel); IN(u32, p); ASSUME(o > INT32_MIN); vf_store = sel & 1; bool sg = sel & 2; unsigned bits = sel & 4 ? 8 : sel & 8 ? 16 : 32;
	vf_mode_init(bits, sg);
	ir_node *n = GN(&vf_op_other, 3); n->in[1] = n->in[2] = n->in[3] = G(p);
	arm_load_store_attr_t *a = get_arm_load_store_attr(n);
	a->offset = o; a->load_store_mode = &vf_mode; a->is_frame_entity = true;
	peephole_arm_Str_Ldr(n);
	ENSURE("address", V(n->in[1 + (vf_store ? n_arm_Str_ptr : n_arm_Ldr_ptr)]) + (u32)a->offset == p + (u32)o);
	ENSURE("encodable", vf_enc && ldst_ok(a->offset, bits, sg, vf_store));
	REACH("end");
}
void h_frameaddr(void)
{
	IN(int32_t, o); IN(u32, p);
	ir_node *n = GN(&vf_op_other, 1); n->in[1 + n_arm_FrameAddr_base] = G(p);
	arm_Address_attr_t *a = get_arm_Address_attr(n); a->fp_offset = o;
	peephole_arm_FrameAddr(n);
	ENSURE("address", V(n->in[1 + n_arm_FrameAddr_base]) + (u32)a->fp_offset == p + (u32)o);
	ENSURE("encodable", vf_enc && arm_imm_ok(a->fp_offset));
	REACH("end");
}
#endif
