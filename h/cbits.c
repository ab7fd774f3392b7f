/* Contract of the transfer function of ir/ana/constbits.c: the bits it claims
 * for a node hold for the value of the node, whenever the bits claimed for its
 * operands hold for theirs; and it is monotone (what it claims after an operand
 * lost bits is no more than before), which set_bitinfo asserts. */
#include "ghost.h"
#include "irnodemap.h"
#include "irgwalk.h"
#include "iredges_t.h"
#undef ir_nodemap_get
#define ir_nodemap_get(type, map, node) ((type*)(node)->link)
#define ir_nodemap_insert(map, node, d) ((void)(((ir_node*)(node))->link = (d)))
#undef OALLOCZ
#define OALLOCZ(o, T) ((T*)vf_zalloc(sizeof(T)))
static void *vf_zalloc(size_t n) { void *p = calloc(1, n); ASSUME(p != NULL); return p; }
#ifdef DEBUG_libfirm
#undef DEBUG_libfirm
#endif
#include "ana/constbits.c"
#ifndef MODE
#define MODE mode_Bu
#endif
#ifndef RMODE
#define RMODE mode_Iu
#endif
#ifndef OP
#define OP Add
#endif
#ifndef UOP
#define UOP Not
#endif
#ifndef MONO
#define MONO 0
#endif
#ifndef NUM
#define NUM 0
#endif
#ifndef REL
#define REL 0
#endif
void assure_irg_properties(ir_graph *g, ir_graph_properties_t p) { ASSUME(0); }
void irg_walk_graph(ir_graph *g, irg_walk_func *a, irg_walk_func *b, void *e) { ASSUME(0); }
firm_kind get_kind(void const *p) { return p ? *(firm_kind const*)p : k_BAD; }

static unsigned nfact;
/* claim bits for a value: any that hold for it. Modes without bits claim none. */
static ir_node *claim(ir_node *n, u64 z, u64 o)
{
	ir_mode *m = n->mode;
	if (!mode_is_int(m) && m != mode_b) return n;
	bitinfo *b = vf_zalloc(sizeof(*b));
	b->state = BITINFO_VALID; b->z = mk(m, z); b->o = mk(m, o);
	n->link = b;
	return n;
}
static u64 fz[4], fo[4]; static ir_node *fn[4];
static ir_node *any(ir_mode *m)
{
	unsigned i = nfact++;
	u64 v = ANYV("value", i, m), z = v | ANYV("maybe", i, m), o = v & ANYV("sure", i, m);
	fz[i] = z; fo[i] = o;
	return fn[i] = claim(leaf(m, v), z, o);
}
/* a claim with fewer bits known; also from the claim "no value" */
static void weaken(void)
{
	for (unsigned i = 0; i < 4; ++i) {
		if (i >= nfact || fn[i]->link == NULL) continue;
		bitinfo *b = fn[i]->link; ir_mode *m = fn[i]->mode;
		u64 z = fz[i] & ANYV("z1", i, m), o = fo[i] | ANYV("o1", i, m);
		if (VF_IN("undef", i, uint8_t) & 1) { z = 0; o = mmask(m); } else ASSUME((o & ~z) == 0);
		b->z = mk(m, z); b->o = mk(m, o);
	}
}
static void restore(void)
{
	for (unsigned i = 0; i < 4; ++i)
		if (i < nfact && fn[i]->link != NULL) { bitinfo *b = fn[i]->link; b->z = mk(fn[i]->mode, fz[i]); b->o = mk(fn[i]->mode, fo[i]); }
}
static void check(ir_node *n)
{
#if MONO
	weaken();
	transfer(n);
	restore();
	transfer(n);
	REACH("transferred");
#else
	transfer(n);
	bitinfo *b = n->link;
	ENSURE("information of the mode of the node", b != NULL && vf_tv_mode(b->z) == n->mode && vf_tv_mode(b->o) == n->mode);
	u64 z = vf_off(b->z), o = vf_off(b->o);
	VF_LOG("%s value %lx def %d: claimed z %lx o %lx\n", n->op->name, (long)GVAL(n), GDEF(n), (long)z, (long)o);
	for (unsigned i = 0; i < 4; ++i) if (i < nfact) VF_LOG("  operand %u mode %s value %lx z %lx o %lx\n", i, (char*)fn[i]->mode->name, (long)GVAL(fn[i]), (long)fz[i], (long)fo[i]);
	if (!GDEF(n)) return;
	ENSURE("bits claimed zero are zero", (GVAL(n) & ~z) == 0);
	ENSURE("bits claimed one are one", (o & ~GVAL(n)) == 0);
	REACH("transferred");
#endif
}
static ir_node *reached(ir_node *b) { return claim(b, 1, 0), ((bitinfo*)(b->link = vf_zalloc(sizeof(bitinfo))))->state = BITINFO_VALID, ((bitinfo*)b->link)->z = tarval_b_true, ((bitinfo*)b->link)->o = tarval_b_false, b; }
#define CAT(a, b) CAT_(a, b)
#define CAT_(a, b) a##b
static void start(void) { vf_init(); reached(vf_block); vf_strict_shift = true; }
void h_bin(void)
{
	start();
	ir_node *a = any(MODE), *b = any(RMODE);
	check(CAT(new_r_, OP)(vf_block, a, b));
}
void h_un(void) { start(); check(CAT(new_r_, UOP)(vf_block, any(MODE))); }
void h_conv(void) { start(); check(new_r_Conv(vf_block, any(MODE), RMODE)); }
void h_cmp(void)
{
	start();
	ir_relation r = REL ? REL : (ir_relation)(VF_IN("relation", 0, uint8_t) & 15);
	ir_node *a = any(MODE), *b = any(MODE);
	check(new_r_Cmp(vf_block, a, b, r));
}
void h_confirm(void)
{
	start();
	ir_relation r = (ir_relation)(VF_IN("relation", 0, uint8_t) & 15);
	ir_node *a = any(MODE), *b = any(MODE);
	check(new_r_Confirm(vf_block, a, b, r));
}
void h_mux(void)
{
	start();
	ir_node *c = any(mode_b), *a = any(MODE), *b = any(MODE);
	check(new_r_Mux(vf_block, c, a, b));
}
void h_const(void) { start(); check(konst(MODE, ANYV("value", 0, MODE))); }
void h_tuple(void)
{
	start();
	ir_node *a = any(MODE), *b = any(MODE);
	ir_node *in[2] = { a, b };
	ir_node *t = vf_new_ir_node(NULL, &vf_irg, vf_block, op_Tuple, mode_T, 2, in);
	ir_node *p = vf_new_ir_node(NULL, &vf_irg, vf_block, op_Proj, MODE, 1, &t);
	p->attr.proj.num = NUM;
	vf_eval(p);
	check(p);
}
/* the block is entered through one edge; that edge may not be claimed dead */
static ir_node *entry[3];
static ir_node *joined(unsigned k)
{
	ir_node *in[3];
	for (unsigned i = 0; i < k; ++i) { in[i] = entry[i] = vf_new_ir_node(NULL, &vf_irg, vf_block, op_Jmp, mode_X, 0, NULL); reached(in[i]); }
	return vf_new_ir_node(NULL, &vf_irg, NULL, op_Block, mode_BB, (int)k, in);
}
static void edge_claim(unsigned k)
{
	/* any claim about the other edges: live, or dead */
	for (unsigned i = 0; i < k; ++i)
		if (i != vf_phi_pred && VF_IN("dead", i, uint8_t) & 1) { bitinfo *b = entry[i]->link; b->z = tarval_b_false; b->o = tarval_b_true; }
}
void h_phi(void)
{
	start();
	ir_node *in[3] = { any(MODE), any(MODE), any(MODE) };
	vf_phi_pred = VF_IN("entry", 0, uint8_t); ASSUME(vf_phi_pred < 3);
	ir_node *bl = joined(3);
	ir_node *phi = vf_new_ir_node(NULL, &vf_irg, bl, op_Phi, MODE, 3, in);
	vf_eval(phi);
	edge_claim(3);
	check(phi);
}
static void known(ir_node *n) { transfer(n); ((bitinfo*)n->link)->state = BITINFO_VALID; }
/* control flow: what is executed is not claimed unreachable */
void h_flow(void)
{
	start();
	ir_node *c = any(mode_b);
	ir_node *cond = vf_new_ir_node(NULL, &vf_irg, vf_block, op_Cond, mode_T, 1, &c);
	unsigned num = NUM;
	ir_node *p = vf_new_ir_node(NULL, &vf_irg, vf_block, op_Proj, mode_X, 1, &cond);
	p->attr.proj.num = num;
	known(p);
	bitinfo *b = p->link;
	bool taken = GVAL(c) == (num == pn_Cond_true);
	if (taken) ENSURE("a taken branch is not claimed dead", b->z == tarval_b_true);
	else ENSURE("a branch not taken is not claimed taken", b->o == tarval_b_false);
	vf_phi_pred = 0;
	ir_node *bl = joined(2);
	bl->in[1] = p; entry[0] = p;
	known(bl);
	if (taken) ENSURE("a reached block is not claimed unreachable", ((bitinfo*)bl->link)->z == tarval_b_true);
	ir_node *j = vf_new_ir_node(NULL, &vf_irg, bl, op_Jmp, mode_X, 0, NULL);
	known(j);
	if (taken) ENSURE("the jump of a reached block is not claimed dead", ((bitinfo*)j->link)->z == tarval_b_true);
	REACH("flow");
}
