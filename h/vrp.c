/* Contract of vrp_update_node and vrp_cmp (ir/ana/vrp.c): if the facts about the
 * operands hold for their values, and the facts about the node held, the facts
 * about the node hold afterwards; vrp_cmp excludes no outcome that can occur. */
#include "ghost.h"
#include "irnodemap.h"
#include "irgwalk.h"
#include "iredges_t.h"
#include "irouts_t.h"
#include "vrp.h"
#undef ir_nodemap_get
#define ir_nodemap_get(type, map, node) ((type*)(node)->link)
#define ir_nodemap_insert(map, node, d) ((void)(((ir_node*)(node))->link = (d)))
#undef OALLOCZ
#define OALLOCZ(o, T) ((T*)vf_zalloc(sizeof(T)))
static void *vf_zalloc(size_t n) { void *p = calloc(1, n); ASSUME(p != NULL); return p; }
#undef DEBUG_libfirm
#define vrp_cmp vf_vrp_cmp
#define vrp_get_info vf_vrp_get_info
#include "ana/vrp.c"
#ifndef MODE
#define MODE mode_Bu
#endif
#ifndef RMODE
#define RMODE MODE
#endif
#ifndef OP
#define OP Add
#endif
#ifndef UOP
#define UOP Not
#endif
#ifndef NP
#define NP 2
#endif
void assure_irg_outs(ir_graph *g) { ASSUME(0); }
void irg_walk_graph(ir_graph *g, irg_walk_func *a, irg_walk_func *b, void *e) { ASSUME(0); }
firm_kind get_kind(void const *p) { return p ? *(firm_kind const*)p : k_BAD; }
unsigned get_irg_last_idx(ir_graph const *g) { return 64; }
int ir_fprintf(FILE *f, char const *s, ...) { return 0; }
void register_hook(hook_type_t t, hook_entry_t *e) { ASSUME(0); }
/* the facts hold for a value; with an antirange the borders may be taken */
static bool holds(vrp_attr const *a, ir_mode *m, u64 v)
{
	u64 s = vf_off(a->bits_set), ns = vf_off(a->bits_not_set);
	if ((s & ~v) != 0 || (v & ~ns) != 0) return false;
	i64 x = mval(m, v);
	if (a->range_type == VRP_RANGE) return tvs(a->range_bottom) <= x && x <= tvs(a->range_top);
	if (a->range_type == VRP_ANTIRANGE) return x <= tvs(a->range_bottom) || tvs(a->range_top) <= x;
	return true;
}
enum { T_ANY = 15, T_NOANTI = 1 << VRP_UNDEFINED | 1 << VRP_RANGE | 1 << VRP_VARYING };
static unsigned nattr;
/* any facts that hold for the value of a node */
static vrp_attr *facts(ir_node *n, unsigned types)
{
	unsigned i = nattr++;
	ir_mode *m = n->mode;
	vrp_attr *a = vf_zalloc(sizeof(*a));
	unsigned t = VF_IN("type", i, uint8_t) & 3;
	ASSUME(types >> t & 1);
	a->range_type = (enum range_types)t;
	a->bits_set = mk(m, GVAL(n) & ANYV("sure", i, m));
	a->bits_not_set = mk(m, GVAL(n) | ANYV("maybe", i, m));
	if (t == VRP_UNDEFINED) a->range_bottom = a->range_top = tarval_bad;
	else { a->range_bottom = mk(m, ANYV("bottom", i, m)); a->range_top = mk(m, ANYV("top", i, m)); }
	ASSUME(holds(a, m, GVAL(n)));
	n->link = a;
	return a;
}
static ir_node *any(ir_mode *m)
{
	ir_node *n = leaf(m, ANYV("value", nattr, m));
	if (mode_is_int(m)) facts(n, T_ANY); else ++nattr;
	return n;
}
static void show(char const *s, ir_node *n)
{
	vrp_attr *a = n->link;
	VF_LOG("%s: %s mode %s value %lx set %lx notset %lx type %d", s, n->op->name, (char*)n->mode->name, (long)GVAL(n), (long)vf_off(a->bits_set), (long)vf_off(a->bits_not_set), a->range_type);
	VF_LOG(" range %lx %lx\n", (long)vf_off(a->range_bottom), (long)vf_off(a->range_top));
}
static ir_vrp_info *the_info(void) { return &vf_irg.vrp; }
static void update(ir_node *n)
{
	if (n->link) show("before", n);
	vrp_update_node(the_info(), n);
	vrp_attr *a = n->link;
	ENSURE("facts of the mode of the node", vf_tv_mode(a->bits_set) == n->mode && vf_tv_mode(a->bits_not_set) == n->mode);
	show("after", n);
	if (!GDEF(n)) return;
	ENSURE("range of the mode of the node", (a->range_type != VRP_RANGE && a->range_type != VRP_ANTIRANGE) || (vf_tv_mode(a->range_bottom) == n->mode && vf_tv_mode(a->range_top) == n->mode));
	ENSURE("the facts hold for the value", holds(a, n->mode, GVAL(n)));
	REACH("updated");
}
#define CAT(a, b) CAT_(a, b)
#define CAT_(a, b) a##b
/* the first visit (no facts), or a later one */
static void check(ir_node *n, unsigned types)
{
	if (!GDEF(n)) return;
#if FIRST
	(void)types;
#else
	facts(n, types);
#endif
	update(n);
}
static void start(void) { vf_init(); vf_strict_shift = true; }
void h_bin(void)
{
	start();
	ir_node *a = any(MODE), *b = any(RMODE);
	bool w = VF_IN("wrap", 0, uint8_t) & 1;
	ir_node *n = CAT(new_r_, OP)(vf_block, a, b);
	vf_wrap = w;
	check(n, T_NOANTI);
	ENSURE("overflow behaviour of constants restored", vf_wrap == w);
}
void h_shift(void)
{
	start();
	ir_node *a = any(MODE), *b = konst(mode_Iu, ANYV("amount", 0, mode_Iu));
	check(CAT(new_r_, OP)(vf_block, a, b), T_NOANTI);
}
void h_un(void) { start(); check(CAT(new_r_, UOP)(vf_block, any(MODE)), T_NOANTI); }
void h_conv(void) { start(); ir_node *a = any(MODE); check(new_r_Conv(vf_block, a, RMODE), T_NOANTI); }
void h_const(void) { start(); check(konst(MODE, ANYV("value", 0, MODE)), T_NOANTI); }
/* an exchanged node; its antirange, if any, is the one of its operand */
void h_id(void)
{
	start();
	ir_node *a = any(MODE);
	ir_node *n = vf_new_ir_node(NULL, &vf_irg, vf_block, op_Id, MODE, 1, &a);
	vf_eval(n);
#if FIRST
	update(n);
#else
	vrp_attr *o = facts(n, T_ANY), *p = a->link;
	if (o->range_type == VRP_ANTIRANGE) ASSUME(p->range_type == VRP_ANTIRANGE && o->range_bottom == p->range_bottom && o->range_top == p->range_top);
	update(n);
	ENSURE("an antirange stays the one of the operand", o->range_type != VRP_ANTIRANGE || (p->range_type == VRP_ANTIRANGE && o->range_bottom == p->range_bottom && o->range_top == p->range_top));
#endif
}
void h_phi(void)
{
	start();
	ir_node *in[3]; for (int i = 0; i < NP; ++i) in[i] = any(MODE);
	vf_phi_pred = VF_IN("entry", 0, uint8_t); ASSUME(vf_phi_pred < NP);
	ir_node *phi = vf_new_ir_node(NULL, &vf_irg, vf_block, op_Phi, MODE, NP, in);
	vf_eval(phi);
	check(phi, T_NOANTI);
	ENSURE("a phi of several values has no antirange", ((vrp_attr*)phi->link)->range_type != VRP_ANTIRANGE);
}
void h_confirm(void)
{
	start();
	ir_relation r = (ir_relation)(VF_IN("relation", 0, uint8_t) & 15);
	ir_node *a = any(MODE);
#if CONSTB
	ir_node *b = konst(MODE, ANYV("bound", 0, MODE));
#else
	ir_node *b = any(MODE);
#endif
	ir_node *n = new_r_Confirm(vf_block, a, b, r);
	if (!GDEF(n)) return;
	/* twice: what it claims stays as it is */
	update(n);
	vrp_attr o = *(vrp_attr*)n->link;
	int again = vrp_update_node(the_info(), n);
	vrp_attr *p = n->link;
	ENSURE("claims of a Confirm do not change", !again && p->range_type == o.range_type && p->range_bottom == o.range_bottom && p->range_top == o.range_top && p->bits_set == o.bits_set && p->bits_not_set == o.bits_not_set);
}
/* all other nodes: nothing is claimed */
void h_other(void)
{
	start();
	ir_node *a = any(MODE), *b = any(MODE);
	check(new_r_Mul(vf_block, a, b), 1 << VRP_UNDEFINED);
	check(new_r_Mux(vf_block, leaf(mode_b, 0), a, b), 1 << VRP_UNDEFINED);
	check(new_r_Minus(vf_block, a), 1 << VRP_UNDEFINED);
	check(leaf(MODE, ANYV("dummy", 0, MODE)), 1 << VRP_UNDEFINED);
}
void h_cmp(void)
{
	start();
	ir_node *a = any(MODE), *b = any(MODE);
	static void *some; vf_irg.vrp.infos.data = &some;
	ir_relation r = vf_vrp_cmp(a, b);
	i64 x = mval(MODE, GVAL(a)), y = mval(MODE, GVAL(b));
	show("left", a); show("right", b); VF_LOG("relation %d\n", r);
	ENSURE("the outcome of the comparison is not excluded", rel_holds(r, x, y));
	REACH("cmp");
	a->link = NULL;
	ENSURE("nothing is known without facts", rel_holds(vf_vrp_cmp(a, b), x, y) && rel_holds(vf_vrp_cmp(b, a), y, x));
}
