/* Contracts of ir/ir/irarch.c: the replacement of Mul/Div/Mod by a constant
 * denotes the same value. */
#include "ghost.h"
/* obstack memory through malloc, typed so that the verifier knows the layout */
#undef OALLOC
#undef OALLOCN
#undef OALLOCNZ
#define OALLOC(o, T) ({ T *p_ = malloc(sizeof(T)); ASSUME(p_ != NULL); p_; })
#define OALLOCN(o, T, n) ({ T *p_ = malloc(sizeof(T) * 40); ASSUME(p_ != NULL); p_; })
#define OALLOCNZ(o, T, n) ({ T *p_ = malloc(sizeof(T) * 40); ASSUME(p_ != NULL); for (int i_ = 0; i_ < (int)(n); ++i_) p_[i_] = 0; p_; })
#include "ir/irarch.c"
ir_type *get_unknown_type(void) { return NULL; }
void optimize_graph_df(ir_graph *g) { }
void add_irg_constraints(ir_graph *g, ir_graph_constraints_t c) { g->constraints |= c; }
/* contract of exchange: only nodes of equal value */
static bool vf_exch_ok = true;
void exchange(ir_node *o, ir_node *n) { if (GDEF(o) && !(GDEF(n) && GVAL(o) == GVAL(n) && o->mode == n->mode)) vf_exch_ok = false; }
#ifndef SUBS
#define SUBS 1
#define SWAP 0
#endif
#ifndef NOREM
#define NOREM 0
#endif
#ifndef MODE
#define MODE mode_Bs
#endif
static void start(void)
{
	vf_init();
	settings.allow_mulhs = settings.allow_mulhu = true; settings.max_bits_for_mulh = 32;
	settings.replace_divs = settings.replace_mods = settings.replace_muls = true;
	settings.also_use_subs = SUBS;
	settings.maximum_shifts = VF_IN("maxsh", 0, uint8_t) & 7;
	settings.highest_shift_amount = VF_IN("hisha", 0, uint8_t) & 63;
	settings.evaluate = NULL;
}
/* the constants under test: a concrete list, every dividend / multiplicand */
#ifndef CLIST
#define CLIST CVAL
#endif
static long const vf_consts[] = { CLIST };
#define FOREACH(f) do { start(); for (unsigned k_ = 0; k_ < sizeof(vf_consts) / sizeof(*vf_consts); ++k_) f(k_, (u64)vf_consts[k_] & mmask(MODE)); REACH("end"); } while (0)

/* the operand: any value, or (WORST, wide modes) one of the points at which a
 * multiply-high replacement of a division by c goes wrong first: the ends of
 * the range, the largest values that are -1 modulo c, the neighbourhood of
 * zero, of c and of a power of two */
static u64 operand(unsigned i, u64 c)
{
#ifdef WORST
	i64 d = mval(MODE, c), mx = MODE->sign ? (i64)(mmask(MODE) >> 1) : (i64)mmask(MODE), mn = MODE->sign ? -mx - 1 : 0;
	i64 a = d < 0 ? -d : d == 0 ? 1 : d;
	i64 p[16] = { mx, mx - mx % a - 1, mx - mx % a, mx - mx % a - a, mn, mn + 1, mn + 2, mn - mn % a, mn - mn % a + 1, a, a - 1, -a, -a + 1, 0, mx / 2 + 1, mx / 2 - (mx / 2) % a - 1 };
	return (u64)p[VF_IN("sel", i, uint8_t) & 15] & mmask(MODE);
#else
	return ANYV("x", i, MODE);
#endif
}
static void one_div(unsigned i, u64 c)
{
	ir_node *x = leaf(MODE, operand(i, c));
	ir_node *k = konst(MODE, c);
	ir_node *n = new_rd_DivRL(NULL, vf_block, get_irg_no_mem(&vf_irg), x, k, 1);
	n->attr.div.no_remainder = NOREM;
	vf_eval(n);
	ir_node *r = arch_dep_replace_div_by_const(n);
	if (c == 0) ENSURE("division by zero is left alone", r == n);
	if (r != n && GDEF(n)) {
		ENSURE("mode of the quotient", r->mode == MODE);
		ENSURE("the replacement of a division computes the quotient", GDEF(r) && GVAL(r) == GVAL(n));
	}
}
void h_div(void) { FOREACH(one_div); }
static void one_mod(unsigned i, u64 c)
{
	ir_node *x = leaf(MODE, operand(i, c));
	ir_node *k = konst(MODE, c);
	ir_node *n = new_rd_Mod(NULL, vf_block, get_irg_no_mem(&vf_irg), x, k, 1);
	ir_node *r = arch_dep_replace_mod_by_const(n);
	if (c == 0) ENSURE("remainder by zero is left alone", r == n);
	if (r != n && GDEF(n)) {
		ENSURE("mode of the remainder", r->mode == MODE);
		ENSURE("the replacement of a remainder computes the remainder", GDEF(r) && GVAL(r) == GVAL(n));
	}
}
void h_mod(void) { FOREACH(one_mod); }
static void one_mul(unsigned i, u64 c)
{
	ir_node *x = leaf(MODE, operand(i, c));
	ir_node *k = konst(MODE, c);
	ir_node *n = SWAP ? new_rd_Mul(NULL, vf_block, k, x) : new_rd_Mul(NULL, vf_block, x, k);
	ir_node *r = arch_dep_replace_mul_with_shifts(n);
	ENSURE("the product is exchanged for an equal value", vf_exch_ok);
	if (r != n) {
		ENSURE("mode of the product", r->mode == MODE);
		ENSURE("the replacement of a multiplication computes the product", GDEF(r) && GVAL(r) == GVAL(n));
	}
}
void h_mul(void) { FOREACH(one_mul); }
