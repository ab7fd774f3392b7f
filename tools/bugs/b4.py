import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py")).read().split("BUGS = [")[0], _ns)
IR, INIT = _ns["IR"], _ns["INIT"]
FACTS = IR + r'''
static ir_node *raw(ir_op *op, ir_mode *m, int n, ir_node **in) { return new_ir_node(NULL, g, bl, op, m, n, in); }
static ir_node *raw2(ir_op *op, ir_node *a, ir_node *b) { ir_node *in[2] = { a, b }; return raw(op, get_irn_mode(a), 2, in); }
static void done(ir_node *n)
{
	ir_node *r = new_r_Return(bl, get_irg_initial_mem(g), 1, &n);
	add_immBlock_pred(get_irg_end_block(g), r); irg_finalize_cons(g);
}
'''
BITS = FACTS + r'''
static ir_node *watch[8]; static int nw;
static void facts(ir_node *root, int64_t lo, int64_t hi)
{
	done(root);
	constbits_analyze(g);
	for (int i = 0; i < nw; ++i) {
		bitinfo *b = get_bitinfo(watch[i]);
		if (!b) continue;
		ir_mode *wm = get_irn_mode(watch[i]); uint64_t z = wm == mode_b ? b->z == tarval_b_true : un(get_irn_mode(watch[i]), get_tarval_long(b->z)), o = wm == mode_b ? b->o == tarval_b_true : un(wm, get_tarval_long(b->o));
		for (vx = lo; vx <= hi; ++vx) for (vy = lo; vy <= hi; vy += 3) {
			uint64_t v = wm == mode_b ? (uint64_t)ev(watch[i]) : un(wm, ev(watch[i]));
			CHK(!(v & ~z) && !(o & ~v), "x=%d y=%d node %d: value %lx, may be %lx, must be %lx", (int)vx, (int)vy, i, (long)v, (long)z, (long)o);
			if (fail) return;
		}
	}
	constbits_clear(g);
}
'''
VRP = FACTS + r'''
#include "vrp.h"
static ir_node *watch[8]; static int nw;
static void facts(ir_node *root, int64_t lo, int64_t hi)
{
	done(root);
	set_vrp_data(g);
	for (int i = 0; i < nw; ++i) {
		vrp_attr *b = vrp_get_info(watch[i]); ir_mode *m = get_irn_mode(watch[i]);
		if (!b) continue;
		uint64_t z = un(m, get_tarval_long(b->bits_not_set)), o = un(m, get_tarval_long(b->bits_set));
		for (vx = lo; vx <= hi; ++vx) for (vy = lo; vy <= hi; vy += 3) {
			int64_t w = ev(watch[i]); uint64_t v = un(m, w);
			CHK(!(v & ~z) && !(o & ~v), "x=%d y=%d node %d: value %lx, may be %lx, must be %lx", (int)vx, (int)vy, i, (long)v, (long)z, (long)o);
			if (b->range_type == VRP_RANGE) CHK(w >= get_tarval_long(b->range_bottom) && w <= get_tarval_long(b->range_top), "x=%d y=%d node %d: %ld outside [%ld,%ld]", (int)vx, (int)vy, i, (long)w, get_tarval_long(b->range_bottom), get_tarval_long(b->range_top));
			if (fail) return;
		}
	}
	free_vrp_data(g);
}
'''
BUGS = [
 dict(id="c11-mul-one", property="C11", needs="a product whose right operand has an unknown low bit between known ones",
      breaks="the known-bits transfer of Mul takes a bit that may be one for a bit that is one",
      edits=[("ir/ana/constbits.c", "								if (tarval_is_null(tarval_andnot(one, ro))) {", "								if (tarval_is_null(tarval_andnot(one, ro)) || tarval_is_null(o)) {")],
      demo=BITS + INIT + r'''
 ir_mode *ms[] = { mode_Bu, mode_Bs, mode_Is };
 for (int i = 0; i < 3; ++i) for (int k = 0; k < 8; ++k) for (int j = 0; j < 8; ++j) { start(ms[i]); nw = 0;
  ir_node *a = raw2(op_Or, raw2(op_And, X, K(k)), K(j)), *b = raw2(op_Or, raw2(op_And, Y, K(j + 1)), K(k + 2));
  watch[nw++] = raw2(op_Mul, a, b);
  facts(watch[0], 0, 40); if (fail) return 1; }
 return fail; }'''),
 dict(id="c11-shr-over", property="C11", needs="a shift whose amount has a known bit of the size of the mode, and another unknown",
      breaks="the possible shift amounts are taken modulo the wrong mask",
      edits=[("ir/ana/constbits.c", "		ir_tarval *const rsure  = tarval_and(tarval_not(tarval_eor(ro, rz)), rmask);\n								ir_tarval *const rbound = tarval_add(rmask, rone);\n							ir_tarval *const rzero  = get_mode_null(rmode);\n", "")],
      demo=""),
 dict(id="c11-cmp-neg", property="C11", needs="signed compare where only the upper bound of the right operand is negative (its sign unknown)",
      breaks="the guard against negative values misses an operand whose sign is unknown",
      edits=[("ir/ana/constbits.c", "						case ir_relation_greater:\n							/* TODO handle negative values */\n							if (tarval_is_negative(lz) || tarval_is_negative(lo) ||\n							    tarval_is_negative(rz) || tarval_is_negative(ro))",
              "						case ir_relation_greater:\n							/* TODO handle negative values */\n							if (tarval_is_negative(lz) || tarval_is_negative(lo) ||\n							    tarval_is_negative(ro))")],
      demo=BITS + INIT + r'''
 ir_mode *ms[] = { mode_Bs, mode_Is };
 for (int i = 0; i < 2; ++i) for (int r = 1; r < 7; ++r) for (int k = -9; k < 9; ++k) { start(ms[i]); nw = 0;
  ir_node *in[2] = { raw2(op_And, X, K(k & 7)), raw2(op_Or, raw2(op_And, Y, K(-4)), K(k & 3)) };
  ir_node *c = raw(op_Cmp, mode_b, 2, in); set_Cmp_relation(c, (ir_relation)r); watch[nw++] = c;
  ir_node *mx[3] = { c, X, Y }; ir_node *root = raw(op_Mux, M, 3, mx); watch[nw++] = root;
  facts(root, -20, 20); if (fail) return 1; }
 return fail; }'''),
 dict(id="c11-phi-back", property="C11", needs="Mux with an unknown selector whose two values share a known-zero and differ in a known-one bit",
      breaks="the result of a Mux with unknown selector keeps ones only one alternative has",
      edits=[("ir/ana/constbits.c", "						z = tarval_or( bf->z, bt->z);\n						o = tarval_and(bf->o, bt->o);", "						z = tarval_or( bf->z, bt->z);\n						o = tarval_and(bf->o, bt->z);")],
      demo=BITS + INIT + r'''
 start(mode_Is); nw = 0;
 ir_node *in[2] = { X, Y }; ir_node *c = raw(op_Cmp, mode_b, 2, in); set_Cmp_relation(c, ir_relation_less);
 ir_node *mx[3] = { c, raw2(op_Or, X, K(6)), raw2(op_And, Y, K(12)) }; watch[nw++] = raw(op_Mux, M, 3, mx);
 facts(watch[0], -20, 20); return fail; }'''),
 dict(id="c11-sub-carry", property="C11", needs="a difference whose right operand has unknown bits above a known bit",
      breaks="the borrow of an unknown bit of the right operand is not tracked",
      edits=[("ir/ana/constbits.c", "					ir_tarval *const vz  = tarval_sub(lo, rz);\n					ir_tarval *const vo  = tarval_sub(lz, ro);", "					ir_tarval *const vz  = tarval_sub(lz, rz);\n					ir_tarval *const vo  = tarval_sub(lo, ro);")],
      demo=BITS + INIT + r'''
 ir_mode *ms[] = { mode_Bu, mode_Is };
 for (int i = 0; i < 2; ++i) for (int k = 0; k < 16; ++k) for (int j = 0; j < 16; ++j) { start(ms[i]); nw = 0;
  watch[nw++] = raw2(op_Sub, raw2(op_And, X, K(k)), raw2(op_And, Y, K(j)));
  facts(watch[0], 0, 40); if (fail) return 1; }
 return fail; }'''),
 dict(id="c13-sub-range", property="C13", needs="a difference of two ranges where the right one is not a single value",
      breaks="the bounds of the difference subtract the bounds pairwise instead of crosswise when they do not overflow",
      edits=[("ir/ana/vrp.c", "tarval_sub(vrp_left->range_top, vrp_right->range_bottom);", "tarval_sub(vrp_left->range_top, vrp_right->range_top);"),
             ("ir/ana/vrp.c", "tarval_sub(vrp_left->range_bottom, vrp_right->range_top);", "tarval_sub(vrp_left->range_bottom, vrp_right->range_bottom);")],
      demo=VRP + INIT + r'''
 ir_mode *ms[] = { mode_Bu, mode_Hu };
 for (int i = 0; i < 2; ++i) for (int k = 3; k < 16; ++k) { start(ms[i]); nw = 0;
  ir_node *in[2] = { X, K(k) }; ir_node *c = raw(op_Confirm, M, 2, in); set_Confirm_relation(c, ir_relation_less_equal);
  watch[nw++] = raw2(op_Sub, K(100), c); 
  ir_node *f = watch[0]; done(f); set_vrp_data(g); vrp_attr *b = vrp_get_info(f);
  if (b && b->range_type == VRP_RANGE) for (vx = 0; vx <= k; ++vx) CHK(100 - vx >= get_tarval_long(b->range_bottom) && 100 - vx <= get_tarval_long(b->range_top), "100 - %d outside [%ld,%ld]", (int)vx, get_tarval_long(b->range_bottom), get_tarval_long(b->range_top));
  free_vrp_data(g); if (fail) return 1; }
 return fail; }'''),
 dict(id="c13-eor-bits", property="C13", needs="exclusive or of two values with bits known to be one in both",
      breaks="bits that are one in both operands are reported as possibly one only, but bits one in either as certainly one",
      edits=[("ir/ana/vrp.c", "		new_bits_set = tarval_or(tarval_and(vrp_left->bits_set, tarval_not(vrp_right->bits_not_set)),", "		new_bits_set = tarval_or(tarval_and(vrp_left->bits_set, tarval_not(vrp_right->bits_set)),")],
      demo=VRP + INIT + r'''
 ir_mode *ms[] = { mode_Bu, mode_Is };
 for (int i = 0; i < 2; ++i) for (int k = 0; k < 16; ++k) for (int j = 0; j < 16; ++j) { start(ms[i]); nw = 0;
  watch[nw++] = raw2(op_Eor, raw2(op_Or, X, K(k)), raw2(op_And, Y, K(j)));
  facts(watch[0], 0, 40); if (fail) return 1; }
 return fail; }'''),
 dict(id="c13-conv-narrow", property="C13", needs="a conversion of a value with unknown upper bits from a signed narrow to a wider mode",
      breaks="a widened signed value with unknown sign keeps its upper bits known",
      edits=[("ir/ana/vrp.c", "		new_bits_not_set = tarval_convert_to(get_mode_all_one(old_mode), new_mode);", "		new_bits_not_set = get_mode_size_bits(new_mode) > get_mode_size_bits(old_mode) ? tarval_shr_unsigned(get_mode_all_one(new_mode), get_mode_size_bits(new_mode) - get_mode_size_bits(old_mode)) : tarval_convert_to(get_mode_all_one(old_mode), new_mode);")],
      demo=VRP + INIT + r'''
 ir_mode *ms[] = { mode_Bu, mode_Bs, mode_Hs }, *mt[] = { mode_Is, mode_Iu, mode_Hu };
 for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 4; ++k) { start(ms[i]); nw = 0;
  ir_node *a = raw2(op_Or, X, K(k)); ir_node *c = raw(op_Conv, mt[j], 1, &a); watch[nw++] = c;
  ir_node *r = raw(op_Conv, M, 1, &c);
  facts(r, -30, 30); if (fail) return 1; }
 return fail; }'''),
 dict(id="c13-vrpcmp", property="C13", needs="compare of two ranges that share exactly one end",
      breaks="two ranges that touch in one value are compared as strictly ordered",
      edits=[("ir/ana/vrp.c", "		if (tarval_cmp(vrp_left->range_top, vrp_right->range_bottom) == ir_relation_less) {", "		if (tarval_cmp(vrp_left->range_top, vrp_right->range_bottom) & ir_relation_less_equal) {")],
      demo=VRP + INIT + r'''
 ir_mode *ms[] = { mode_Bu, mode_Is };
 for (int i = 0; i < 2; ++i) for (int k = 3; k < 16; ++k) { start(ms[i]); 
  ir_node *in[2] = { X, K(k) }; ir_node *c = raw(op_Confirm, M, 2, in); set_Confirm_relation(c, ir_relation_less_equal);
  for (int j = 1; j < 20; ++j) { ir_node *d = K(j); ir_node *r = raw2(op_Sub, c, d);
   done(r); set_vrp_data(g); ir_relation q = vrp_cmp(c, d), p = vrp_cmp(d, c);
   for (vx = 0; vx <= k; ++vx) { CHK(q & (vx < j ? ir_relation_less : vx > j ? ir_relation_greater : ir_relation_equal), "%d ? %d: %d", (int)vx, j, q);
     CHK(p & (vx < j ? ir_relation_greater : vx > j ? ir_relation_less : ir_relation_equal), "%d ? %d: %d", j, (int)vx, p); }
   free_vrp_data(g); if (fail) return 1; break; } if (k < 15) for (int j = k; j <= k; ++j) { start(ms[i]); ir_node *in2[2] = { X, K(k) }; ir_node *c2 = raw(op_Confirm, M, 2, in2); set_Confirm_relation(c2, ir_relation_less_equal);
   ir_node *d = K(j); ir_node *r = raw2(op_Sub, c2, d); done(r); set_vrp_data(g); ir_relation q = vrp_cmp(c2, d), p = vrp_cmp(d, c2);
   CHK(q & ir_relation_equal, "%d ? %d: %d", k, j, q); CHK(p & ir_relation_equal, "%d ? %d: %d", j, k, p); free_vrp_data(g); if (fail) return 1; } }
 return fail; }'''),
]
BUGS = [b for b in BUGS if b["demo"]]
