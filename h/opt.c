/* Contracts of ir/opt/iropt.c (and opt_confirms.c): whatever a node is folded,
 * simplified or rewritten to denotes the value the node denotes. */
#include "ghost.h"
/* optimize_node inside iropt.c: the contract (the node itself, evaluated) */
static int vf_no_optimize(void) { vf_eval(vf_last_node); return 0; }
#define get_optimize() vf_no_optimize()
ir_node *vf_real_optimize_node(ir_node *n);
ir_node *vf_real_optimize_in_place_2(ir_node *n);
#define optimize_node vf_real_optimize_node
#define optimize_in_place_2 vf_real_optimize_in_place_2
#include "opt/iropt.c"
#undef optimize_node
#undef optimize_in_place_2
#include "opt/opt_confirms.c"
#ifndef EDGES
#define EDGES 1
#endif
#ifndef CONSTRAINTS
#define CONSTRAINTS 0
#endif
#ifndef MODE
#define MODE mode_Bu
#endif
/* ------------------------------------------------ functions of other parts */
static void vf_merge_pair(ir_node *n, ir_node *o, dbg_action a) { }
static void vf_merge_sets(ir_node *const *n, int nn, ir_node *const *o, int no, dbg_action a) { }
merge_pair_func *__dbg_info_merge_pair = vf_merge_pair;
merge_sets_func *__dbg_info_merge_sets = vf_merge_sets;
irop_flags get_op_flags(ir_op const *op) { return (irop_flags)op->flags; }
void set_op_computed_value(ir_op *op, computed_value_func f) { op->ops.computed_value = f; }
void set_op_computed_value_proj(ir_op *op, computed_value_func f) { op->ops.computed_value_Proj = f; }
void set_op_equivalent_node(ir_op *op, equivalent_node_func f) { op->ops.equivalent_node = f; }
void set_op_equivalent_node_proj(ir_op *op, equivalent_node_func f) { op->ops.equivalent_node_Proj = f; }
void set_op_transform_node(ir_op *op, transform_node_func f) { op->ops.transform_node = f; }
void set_op_transform_node_proj(ir_op *op, transform_node_func f) { op->ops.transform_node_Proj = f; }
void set_op_get_type_attr(ir_op *op, get_type_attr_func f) { }
void set_op_get_entity_attr(ir_op *op, get_entity_attr_func f) { }
/* C12: strength reduction gives nodes of equal value */
ir_node *arch_dep_replace_div_by_const(ir_node *n) { return n; }
ir_node *arch_dep_replace_mod_by_const(ir_node *n) { return n; }
ir_node *arch_dep_replace_mul_with_shifts(ir_node *n) { return n; }
ir_node *duplicate_subgraph(dbg_info *d, ir_node *n, ir_node *b) { return n; }
int block_dominates(ir_node const *a, ir_node const *b) { return a == b; }
int block_postdominates(ir_node const *a, ir_node const *b) { return a == b; }
int get_Block_dom_depth(ir_node const *b) { return 0; }
int edges_activated(ir_graph const *g) { return EDGES; }
int edges_activated_kind(ir_graph const *g, ir_edge_kind_t k) { return EDGES; }
void edges_node_deleted(ir_node *n) { }
void edges_node_revival(ir_node *n) { }
int get_opt_global_cse(void) { return false; }
void clear_irg_constraints(ir_graph *g, ir_graph_constraints_t c) { g->constraints &= ~c; }
void add_irg_constraints(ir_graph *g, ir_graph_constraints_t c) { g->constraints |= c; }
firm_kind get_kind(void const *p) { return p ? *(firm_kind const*)p : k_BAD; }
/* exchange: only for a node of equal value */
static bool vf_exch_ok = true;
/* results of the divisions of the tree: they follow an exchange of the division */
#define MAXPROJ 4
static ir_node *vf_proj[MAXPROJ]; static unsigned vf_nproj;
static ir_node *vf_res(ir_node *p) { if (vf_nproj < MAXPROJ) vf_proj[vf_nproj++] = p; else ASSUME(0); return p; }
void exchange(ir_node *o, ir_node *n)
{
	if (o == n) return;
	if (GDEF(o) && mode_is_data(o->mode) && !(GDEF(n) && GVAL(o) == GVAL(n) && o->mode == n->mode)) vf_exch_ok = false;
	for (unsigned i = 0; i < MAXPROJ; ++i) if (i < vf_nproj && vf_proj[i]->in[1] == o) { vf_proj[i]->in[1] = n; vf_eval(vf_proj[i]); }
	o->op = op_Id; o->in[1] = n; ((gnode*)o)->in.d.nelts = 2;
}
void turn_into_tuple(ir_node *n, int ar, ir_node *const *in)
{
	gnode *g = G(n);
	for (int i = 0; i < ar; ++i) g->in.e[i + 1] = in[i];
	g->in.d.nelts = (size_t)ar + 1;
	n->op = op_Tuple;
}
/* facts of the analyses (C11, C13): sound ones, or none */
#define MAXFACT 4
static struct { ir_node const *n; bitinfo b; } vf_fact[MAXFACT];
static unsigned vf_nfact;
/* With FACTS, sound facts also of constants, And, Or and constant shifts. */
#ifndef FACTS
#define FACTS 0
#endif
#define MAXDERIVED 24
static bitinfo vf_derived[MAXDERIVED]; static unsigned vf_nderived;
static bool vf_bits(ir_node const *n, u64 *z, u64 *o, int depth)
{
	u64 m = mmask(n->mode), z1, o1, z2, o2;
	for (unsigned i = 0; i < MAXFACT; ++i) if (i < vf_nfact && vf_fact[i].n == n) { *z = vf_off(vf_fact[i].b.z); *o = vf_off(vf_fact[i].b.o); return true; }
	if (n->op == op_Const) { *z = *o = vf_off(n->attr.con.tarval); return true; }
	*z = m; *o = 0;
	if (depth == 0) return true;
	if (n->op == op_And || n->op == op_Or || n->op == op_Eor) {
		vf_bits(n->in[1], &z1, &o1, depth - 1); vf_bits(n->in[2], &z2, &o2, depth - 1);
		if (n->op == op_And) { *z = z1 & z2; *o = o1 & o2; }
		else if (n->op == op_Or) { *z = z1 | z2; *o = o1 | o2; }
		else { *z = (z1 & ~o2) | (z2 & ~o1); *o = (o1 & ~z2) | (o2 & ~z1); *z |= *o; }
	} else if ((n->op == op_Shl || n->op == op_Shr) && n->in[2]->op == op_Const) {
		u64 c = vf_off(n->in[2]->attr.con.tarval);
		if (c < n->mode->size) {
			vf_bits(n->in[1], &z1, &o1, depth - 1);
			*z = n->op == op_Shl ? z1 << c : z1 >> c; *o = n->op == op_Shl ? o1 << c : o1 >> c;
		}
	} else if (n->op == op_Conv && !n->in[1]->mode->sign && n->in[1]->mode->size < n->mode->size) {
		vf_bits(n->in[1], &z1, &o1, depth - 1);
		*z = z1; *o = o1;
	}
	*z &= m; *o &= m;
	return true;
}
bitinfo *get_bitinfo(ir_node const *n)
{
	if (!FACTS || !mode_is_int(n->mode)) return NULL;
	u64 z, o;
	vf_bits(n, &z, &o, 2);
	if (vf_nderived >= MAXDERIVED) return NULL;
	bitinfo *b = &vf_derived[vf_nderived++];
	b->z = mk(n->mode, z); b->o = mk(n->mode, o);
	return b;
}
vrp_attr *vrp_get_info(ir_node const *n) { return NULL; }
/* C13: any relation that includes the outcome */
#ifndef VRP
#define VRP 0
#endif
static ir_relation vf_outcome(ir_node const *l, ir_node const *r)
{
	i64 a = mval(l->mode, GVAL(l)), b = mval(r->mode, GVAL(r));
	return a < b ? ir_relation_less : a > b ? ir_relation_greater : ir_relation_equal;
}
ir_relation vrp_cmp(ir_node const *l, ir_node const *r)
{
	if (!VRP) return ir_relation_true;
	ir_relation v = (ir_relation)(VF_IN("vrp", 0, uint32_t) & 15);
	return GDEF(l) && GDEF(r) ? v | vf_outcome(l, r) : v;
}
static ir_node *fact(ir_node *n, u64 z, u64 o)
{
	for (unsigned i = 0; i < MAXFACT; ++i) if (i < vf_nfact && vf_fact[i].n == n) return n;
	if (vf_nfact >= MAXFACT) return n;
	vf_fact[vf_nfact].n = n; vf_fact[vf_nfact].b.z = mk(n->mode, z); vf_fact[vf_nfact].b.o = mk(n->mode, o); ++vf_nfact;
	ASSUME(!GDEF(n) || ((GVAL(n) & ~(z & mmask(n->mode))) == 0 && (~GVAL(n) & o & mmask(n->mode)) == 0));
	return n;
}

/* --------------------------------------------------------- tree language */
static ir_node *X, *Y, *B, *Q; static unsigned vf_tree;
/* nodes of a tree are hash-consed, as they are in a graph */
#define MAXCSE 24
static ir_node *vf_cse_tab[MAXCSE]; static unsigned vf_ncse;
static ir_node *cse(ir_node *n)
{
	for (unsigned i = 0; i < MAXCSE; ++i) {
		if (i >= vf_ncse) break;
		ir_node *o = vf_cse_tab[i];
		if (o->op != n->op || o->mode != n->mode) continue;
		bool same = true;
		for (size_t k = 1; k < 5; ++k) if (k <= (size_t)get_irn_arity(n) && o->in[k] != n->in[k]) same = false;
		if (!same) continue;
		if (n->op == op_Const && o->attr.con.tarval != n->attr.con.tarval) continue;
		if (n->op == op_Cmp && o->attr.cmp.relation != n->attr.cmp.relation) continue;
		if (n->op == op_Confirm && o->attr.confirm.relation != n->attr.confirm.relation) continue;
		return o;
	}
	if (vf_ncse < MAXCSE) vf_cse_tab[vf_ncse++] = n;
	return n;
}
static ir_node *vf_konst(ir_mode *m, u64 v) { return cse(konst(m, v)); }
#define M      MODE
#define K(c)   vf_konst(MODE, (u64)(c))
#define KM(m, c) vf_konst(mode_##m, (u64)(c))
#define SH(c)  vf_konst(mode_Iu, (u64)(c))
#define LM(m)  leaf(mode_##m, ANYV("l", vf_tree, mode_##m))
#define ADD(a, b) cse(new_rd_Add(NULL, vf_block, a, b))
#define SUB(a, b) vf_sub(a, b)
#define MUL(a, b) cse(new_rd_Mul(NULL, vf_block, a, b))
#define AND(a, b) cse(new_rd_And(NULL, vf_block, a, b))
#define OR(a, b)  cse(new_rd_Or(NULL, vf_block, a, b))
#define EOR(a, b) cse(new_rd_Eor(NULL, vf_block, a, b))
#define NOT(a)    cse(new_rd_Not(NULL, vf_block, a))
#define NEG(a)    cse(new_rd_Minus(NULL, vf_block, a))
#define SHL(a, b) cse(new_rd_Shl(NULL, vf_block, a, b))
#define SHR(a, b) cse(new_rd_Shr(NULL, vf_block, a, b))
#define SHRS(a, b) cse(new_rd_Shrs(NULL, vf_block, a, b))
#define CONV(m, a) cse(new_rd_Conv(NULL, vf_block, a, mode_##m))
#define CAST(m, a) cse(new_rd_Bitcast(NULL, vf_block, a, mode_##m))
#define BACK(a)   cse(new_rd_Conv(NULL, vf_block, a, MODE))
#define CMP(r, a, b) cse(new_rd_Cmp(NULL, vf_block, a, b, (ir_relation)(r)))
#define FACT(a, z, o) fact(a, (u64)(z), (u64)(o))
#define MUX(s, f, t) cse(new_rd_Mux(NULL, vf_block, s, f, t))
#define CFM(a, r, b) cse(new_rd_Confirm(NULL, vf_block, a, b, (ir_relation)(r)))
#define DIV(a, b) vf_div(a, b, 0)
#define DIVX(a, b) vf_div(a, b, 1)
#define MOD(a, b) vf_mod(a, b)
static ir_node *vf_sub(ir_node *a, ir_node *b) { return cse(new_rd_Sub(NULL, vf_block, a, b)); }
static ir_node *vf_div(ir_node *a, ir_node *b, int norem)
{
	ir_node *n = new_rd_DivRL(NULL, vf_block, get_irg_no_mem(&vf_irg), a, b, 1);
	n->attr.div.no_remainder = norem;
	vf_eval(n);
	return vf_res(new_r_Proj(n, a->mode, pn_Div_res));
}
static ir_node *vf_mod(ir_node *a, ir_node *b)
{
	ir_node *n = new_rd_Mod(NULL, vf_block, get_irg_no_mem(&vf_irg), a, b, 1);
	return vf_res(new_r_Proj(n, a->mode, pn_Mod_res));
}
static ir_node *vf_orig, *vf_repl;
static void result(ir_node *n, ir_node *r, u64 v, bool d)
{
	vf_orig = n; vf_repl = r;
	ENSURE("exchanged nodes have equal value", vf_exch_ok);
	if (r == n) { /* possibly changed in place: the operands' values are unchanged */
		if (n->op == op_Id) r = n->in[1];
		else vf_eval(n);
	}
	if (!d) return;
	ENSURE("a replacement has the mode of the original", r->mode == n->mode);
	ENSURE("a replacement computes the value of the original", GDEF(r) && GVAL(r) == v);
}
static void vf_simplify(ir_node *n)
{
	vf_orig = vf_repl = n;
	u64 v = GVAL(n); bool d = GDEF(n);
	ir_op_ops const *o = &n->op->ops;
	computed_value_func cv = o->computed_value; /* local copies: cheaper for symbolic execution */
	equivalent_node_func en = o->equivalent_node;
	transform_node_func tn;
	if (cv != NULL) {
		ir_tarval *t = cv(n);
		ENSURE("folding yields a value or unknown", t != NULL);
		if (!vf_same(t, tarval_bad) && !vf_same(t, tarval_unknown) && d) {
			ENSURE("a folded constant has the mode of the node", vf_tv_mode(t) == n->mode);
			ENSURE("a folded constant is the value of the node", vf_off(t) == v);
		}
		if (!vf_same(t, tarval_bad) && !vf_same(t, tarval_unknown)) return; /* optimize_node is done then */
	}
	ir_node *e = n;
	if (en != NULL) e = en(n);
	result(n, e, v, d);
	vf_orig = vf_repl = n;
	if (e != n) return;
	tn = n->op->ops.transform_node;
	if (tn != NULL) result(n, tn(n), v, d);
}
static void check(ir_node *n)
{
	vf_strict_shift = false;
	if (n->op == op_Proj) {
		/* the division itself may be rewritten first */
		ir_node *p = n->in[1];
		u64 v = GVAL(n); bool d = GDEF(n);
		transform_node_func tn = p->op->ops.transform_node;
		if (tn != NULL) {
			tn(p);
			vf_eval(p);
			vf_eval(n);
			ENSURE("a rewritten division delivers the same result", !d || (GDEF(n) && GVAL(n) == v));
		}
	}
	vf_simplify(n);
}
static void tree_start(unsigned i)
{
	vf_tree = i; vf_nfact = 0; vf_nderived = 0; vf_ncse = 0; vf_nproj = 0; vf_exch_ok = true;
	vf_irg.constraints = CONSTRAINTS; vf_strict_shift = true;
	X = leaf(MODE, ANYV("x", i, MODE)); Y = leaf(MODE, ANYV("y", i, MODE));
	B = leaf(mode_b, ANYV("b", i, mode_b)); Q = leaf(mode_b, ANYV("q", i, mode_b));
}
#define T(i, t) do { tree_start(i); check(t); } while (0)
#ifndef TREES
#define TREES T(0, ADD(X, X));
#endif
void h_trees(void)
{
	vf_init();
	ir_register_opt_node_ops();
	TREES
	REACH("end");
}

/* ---- conclusions from facts (C08, C14): constants, relations and facts are symbolic */
static ir_relation anyrel(char const *n) { return (ir_relation)(VF_IN(n, 0, uint32_t) & 15); }
static ir_node *anyk(unsigned i) { return konst(MODE, ANYV("k", i, MODE)); }
static ir_node *anyfact(ir_node *n, unsigned i) { return fact(n, ANYV("z", i, MODE), ANYV("o", i, MODE)); }
static ir_node *confirm(ir_node *v, ir_relation r, ir_node *b) { return new_rd_Confirm(NULL, vf_block, v, b, r); }
#ifndef SHAPE
#define SHAPE 0
#endif
#ifndef VF_NOPAIR
static void vf_pair(ir_node **l, ir_node **r)
{
	vf_init();
	ir_register_opt_node_ops();
	tree_start(0);
	ir_node *a, *b;
	switch (SHAPE) {
	case 0: *l = anyfact(X, 0); *r = anyfact(Y, 1); break;
	case 1: *l = anyfact(X, 0); *r = anyk(0); break;
	case 2: *l = anyk(0); *r = anyfact(X, 0); break;
	case 3: *l = anyk(0); *r = anyk(1); break;
	case 4: *l = X; *r = X; break;
	case 5: *r = anyfact(X, 0); *l = new_rd_And(NULL, vf_block, *r, Y); break;
	case 6: *r = anyfact(X, 0); *l = new_rd_And(NULL, vf_block, Y, *r); break;
	case 7: *l = anyfact(X, 0); *r = new_rd_And(NULL, vf_block, *l, Y); break;
	case 8: *l = anyfact(X, 0); *r = new_rd_And(NULL, vf_block, Y, *l); break;
	case 9: *r = anyfact(Y, 0); *l = confirm(X, anyrel("r1"), *r); break;
	case 10: *l = anyfact(X, 0); *r = confirm(Y, anyrel("r1"), *l); break;
	case 11: *r = anyk(0); *l = confirm(X, anyrel("r1"), *r); break;
	case 12: *l = anyk(0); *r = confirm(X, anyrel("r1"), *l); break;
	case 13: *l = confirm(X, anyrel("r1"), anyk(0)); *r = anyk(1); break;
	case 14: *l = anyk(1); *r = confirm(X, anyrel("r1"), anyk(0)); break;
	case 15: *l = confirm(X, anyrel("r1"), anyk(0)); *r = confirm(Y, anyrel("r2"), anyk(1)); break;
	case 16: a = leaf(MODE, ANYV("w", 0, MODE)); *l = confirm(X, anyrel("r1"), a); *r = confirm(Y, anyrel("r2"), a); break;
	case 17: a = anyk(0); *l = confirm(X, anyrel("r1"), a); *r = confirm(Y, anyrel("r2"), a); break;
	case 18: *l = confirm(X, anyrel("r1"), Y); *r = confirm(leaf(MODE, ANYV("w", 0, MODE)), anyrel("r2"), *l); break;
	case 19: *r = confirm(X, anyrel("r1"), Y); *l = confirm(leaf(MODE, ANYV("w", 0, MODE)), anyrel("r2"), *r); break;
	case 20: *l = confirm(X, anyrel("r1"), anyk(0)); *r = confirm(Y, anyrel("r2"), *l); break;
	case 21: *l = confirm(X, anyrel("r1"), anyk(0)); *r = *l; break;
	case 22: *l = confirm(confirm(X, anyrel("r1"), anyk(0)), anyrel("r2"), anyk(1)); *r = anyk(2); break;
	case 23: *l = confirm(X, anyrel("r1"), Y); *r = leaf(MODE, ANYV("w", 0, MODE)); break;
	case 24: *l = confirm(X, anyrel("r1"), Y); *r = X; break;
	case 25: *l = new_rd_Minus(NULL, vf_block, confirm(X, anyrel("r1"), anyk(0))); *r = anyk(1); break;
	default: *l = X; *r = Y;
	}
}
void h_possible(void)
{
	ir_node *l, *r;
	vf_pair(&l, &r);
	ir_relation possible = ir_get_possible_cmp_relations(l, r);
	if (GDEF(l) && GDEF(r)) {
		ENSURE("the possible relations include the outcome", (possible & vf_outcome(l, r)) != 0);
		ir_relation c = anyrel("q"), d = anyrel("c");
		/* use of the possible relations: which other relation may replace one */
		if (is_relation(c, d, possible)) ENSURE("a relation that replaces another has the same outcome", ((c & vf_outcome(l, r)) != 0) == ((d & vf_outcome(l, r)) != 0));
		REACH("defined");
	}
	REACH("end");
}
/* a decided comparison has the decided outcome */
void h_cmp_confirm(void)
{
	ir_node *l, *r;
	vf_pair(&l, &r);
	ir_relation q = anyrel("q");
	ir_tarval *t = computed_value_Cmp_Confirm(l, r, q);
	ENSURE("a decision or unknown", t == tarval_unknown || t == tarval_b_true || t == tarval_b_false);
	if (GDEF(l) && GDEF(r)) {
		bool holds = (q & vf_outcome(l, r)) != 0;
		ENSURE("a comparison decided true holds", t != tarval_b_true || holds);
		ENSURE("a comparison decided false does not hold", t != tarval_b_false || !holds);
		REACH("defined");
	}
	REACH("end");
}
void h_not_null(void)
{
	ir_node *l, *r; ir_node const *c = NULL;
	vf_pair(&l, &r);
	ir_node *n[2] = { l, r };
	for (int i = 0; i < 2; ++i) {
		int nn = value_not_null(n[i], i ? &c : NULL);
		if (GDEF(n[i])) {
			ENSURE("a value classified as not null is not null", !nn || GVAL(n[i]) != 0);
			REACH("defined");
		}
	}
	REACH("end");
}
/* a Confirm itself */
void h_confirm(void)
{
	ir_node *l, *r;
	vf_pair(&l, &r);
	ir_node *n = confirm(l, anyrel("q"), r);
	ir_tarval *t = computed_value_Confirm(n);
	if (GDEF(n)) {
		ENSURE("a Confirm that holds is not impossible", t != tarval_bad);
		ENSURE("a Confirm is folded to its value", t == tarval_unknown || t == mk(MODE, GVAL(n)));
		REACH("defined");
	}
	REACH("end");
}
#endif
/* the algebra of relations */
void h_algebra(void)
{
	ir_relation r = anyrel("r"), o = (ir_relation)(1u << (VF_IN("o", 0, uint32_t) & 3)); /* one of =, <, >, unordered */
	ENSURE("the negated relation holds exactly when the relation does not", ((get_negated_relation(r) & o) != 0) == ((r & o) == 0));
	ir_relation x = o == ir_relation_less ? ir_relation_greater : o == ir_relation_greater ? ir_relation_less : o;
	ENSURE("the inversed relation holds exactly when the relation holds for exchanged operands", ((get_inversed_relation(r) & x) != 0) == ((r & o) != 0));
	ENSURE("relations stay relations", get_negated_relation(r) <= 15 && get_inversed_relation(r) <= 15);
	REACH("end");
}
