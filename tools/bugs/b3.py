IR = r'''
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include "irnode_t.h"
#include "irgraph_t.h"
#include "ircons_t.h"
#include "irmode_t.h"
#include "irprog_t.h"
#include "iropt_t.h"
#include "iroptimize.h"
#include "irarch.h"
#include "iredges_t.h"
#include "constbits.h"
#include "tv.h"
#include "firm.h"
static int fail;
#define CHK(c, ...) do { if (!(c)) { fail = 1; printf(__VA_ARGS__); printf("\n"); } } while (0)
static ir_graph *g; static ir_node *X, *Y, *bl; static ir_mode *M; static int64_t vx, vy;
static int64_t rd(ir_mode *m, int64_t v) { unsigned b = get_mode_size_bits(m); if (m == mode_b) return v & 1; v = (int64_t)((uint64_t)v << (64 - b)); return mode_is_signed(m) ? v >> (64 - b) : (int64_t)((uint64_t)v >> (64 - b)); }
static uint64_t un(ir_mode *m, int64_t v) { unsigned b = get_mode_size_bits(m); return b == 64 ? (uint64_t)v : (uint64_t)v & ((1ull << b) - 1); }
static int64_t ev(ir_node *n)
{
	ir_mode *m = get_irn_mode(n);
	if (n == X) return rd(m, vx); if (n == Y) return rd(m, vy);
	switch (get_irn_opcode(n)) {
	case iro_Const: { ir_tarval *t = get_Const_tarval(n); return m == mode_b ? t == tarval_b_true : rd(m, get_tarval_long(t)); }
	case iro_Add: return rd(m, ev(get_Add_left(n)) + ev(get_Add_right(n)));
	case iro_Sub: return rd(m, ev(get_Sub_left(n)) - ev(get_Sub_right(n)));
	case iro_Mul: return rd(m, (int64_t)((uint64_t)ev(get_Mul_left(n)) * (uint64_t)ev(get_Mul_right(n))));
	case iro_Mulh: return rd(m, mode_is_signed(m) ? (ev(get_Mulh_left(n)) * ev(get_Mulh_right(n))) >> get_mode_size_bits(m) : (int64_t)((un(m, ev(get_Mulh_left(n))) * un(m, ev(get_Mulh_right(n)))) >> get_mode_size_bits(m)));
	case iro_And: return rd(m, ev(get_And_left(n)) & ev(get_And_right(n)));
	case iro_Or: return rd(m, ev(get_Or_left(n)) | ev(get_Or_right(n)));
	case iro_Eor: return rd(m, ev(get_Eor_left(n)) ^ ev(get_Eor_right(n)));
	case iro_Not: return rd(m, ~ev(get_Not_op(n)));
	case iro_Minus: return rd(m, -ev(get_Minus_op(n)));
	case iro_Shl: { unsigned s = (unsigned)ev(get_Shl_right(n)) % 32; return s >= get_mode_size_bits(m) ? 0 : rd(m, (int64_t)(un(m, ev(get_Shl_left(n))) << s)); }
	case iro_Shr: { unsigned s = (unsigned)ev(get_Shr_right(n)) % 32; return s >= get_mode_size_bits(m) ? 0 : rd(m, (int64_t)(un(m, ev(get_Shr_left(n))) >> s)); }
	case iro_Shrs: { unsigned s = (unsigned)ev(get_Shrs_right(n)) % 32; int64_t v = (int64_t)(un(m, ev(get_Shrs_left(n))) << (64 - get_mode_size_bits(m))) >> (64 - get_mode_size_bits(m)); return rd(m, v >> s); }
	case iro_Conv: return rd(m, ev(get_Conv_op(n)));
	case iro_Confirm: return ev(get_Confirm_value(n));
	case iro_Mux: return ev(get_Mux_sel(n)) ? ev(get_Mux_true(n)) : ev(get_Mux_false(n));
	case iro_Cmp: { int64_t a = ev(get_Cmp_left(n)), b = ev(get_Cmp_right(n)); return (get_Cmp_relation(n) & (a < b ? ir_relation_less : a > b ? ir_relation_greater : ir_relation_equal)) != 0; }
	case iro_Proj: { ir_node *p = get_Proj_pred(n);
		if (is_Div(p)) return rd(m, ev(get_Div_left(p)) / ev(get_Div_right(p)));
		if (is_Mod(p)) return rd(m, ev(get_Mod_left(p)) % ev(get_Mod_right(p)));
		if (is_Builtin(p)) { ir_node *o = get_irn_n(p, 1); uint64_t v = un(m, ev(o)); return rd(m, v == un(m, -1) ? (int64_t)v : (int64_t)v + 1); } break; }
	default: break;
	}
	printf("cannot evaluate %s\n", get_irn_opname(n)); exit(0);
}
static void start(ir_mode *m)
{
	ir_type *t = new_type_method(2, 1, 0, cc_cdecl_set, mtp_no_property);
	set_method_param_type(t, 0, get_type_for_mode(m)); set_method_param_type(t, 1, get_type_for_mode(m)); set_method_res_type(t, 0, get_type_for_mode(m));
	static int k; char nm[20]; sprintf(nm, "f%d", k++);
	ir_entity *e = new_entity(get_glob_type(), new_id_from_str(nm), t);
	g = new_ir_graph(e, 0); set_current_ir_graph(g);
	X = new_r_Proj(get_irg_args(g), m, 0); Y = new_r_Proj(get_irg_args(g), m, 1); bl = get_irg_start_block(g); M = m;
}
static ir_node *K(int64_t v) { return new_r_Const_long(g, M, (long)v); }
static ir_node *SH(int v) { return new_r_Const_long(g, mode_Iu, v); }
#define EDGE(m) (int64_t)rd(m, 1ll << (get_mode_size_bits(m) - 1))
'''
INIT = "int main(void) { ir_init(); "
BUGS = [
 dict(id="c10-cmp-shr", property="C10", needs="compare of a shifted and masked value with a constant that has exactly one bit more than fits before the shift",
      breaks="((x >> c1) & c2) == c3 is turned into a compare with a constant whose top bit was shifted out",
      edits=[("ir/opt/iropt.c", "if (l1 + h2 < bits && l1 + h3 < bits) {", "if (l1 + h2 < bits && l1 + h3 <= bits) {")],
      demo=IR + INIT + r''' start(mode_Bu);
  ir_node *c = new_r_Cmp(bl, new_r_And(bl, new_r_Shr(bl, X, SH(4)), K(15)), K(16), ir_relation_equal);
  for (vx = 0; vx < 256; ++vx) CHK(ev(c) == (((vx >> 4) & 15) == 16), "x=%d", (int)vx);
  return fail; }'''),
 dict(id="c10-upconv-cmp", property="C10", needs="comparing a widened unsigned value with a constant outside the narrow mode",
      breaks="the constant is wrapped into the narrow mode instead of being rejected",
      edits=[("ir/opt/iropt.c", "			int old_wrap_on_overflow = tarval_get_wrap_on_overflow();\n			tarval_set_wrap_on_overflow(false);\n			ir_tarval *new_tv = tarval_convert_to(tv, mode_left);", "			int old_wrap_on_overflow = tarval_get_wrap_on_overflow();\n			tarval_set_wrap_on_overflow(!mode_is_signed(mode));\n			ir_tarval *new_tv = tarval_convert_to(tv, mode_left);")],
      demo=IR + INIT + r''' start(mode_Bu);
  for (int k = 0; k < 70000; k += 13) {
    ir_node *c = new_r_Cmp(bl, new_r_Conv(bl, X, mode_Iu), new_r_Const_long(g, mode_Iu, k), ir_relation_equal);
    for (vx = 0; vx < 256; ++vx) CHK(ev(c) == (vx == k), "x=%d k=%d", (int)vx, k);
    if (fail) return 1; }
  return fail; }'''),
 dict(id="c10-mux-set", property="C10", needs="x > 0 ? 1 : 0 in a signed mode of the width of the result, x the most negative value",
      breaks="0 - x overflows for the most negative value, its sign is used as the result of the comparison",
      edits=[("ir/opt/iropt.c", "		    (rel_gt == ir_relation_false || !is_Const_all_one(right)))\n			return n;", "		    (rel_gt == ir_relation_false || !(is_Const_all_one(right) || is_Const_null(right))))\n			return n;")],
      demo=IR + INIT + r''' start(mode_Is);
  ir_node *c = new_r_Mux(bl, new_r_Cmp(bl, X, K(0), ir_relation_greater), K(0), K(1));
  int64_t v[] = { 0, 1, -1, 5, INT32_MAX, INT32_MIN, INT32_MIN + 1 };
  for (int i = 0; i < 7; ++i) { vx = v[i]; CHK(ev(c) == (vx > 0), "%d > 0", (int)vx); }
  return fail; }'''),
 dict(id="c10-shl-shr", property="C10", needs="a left shift followed by a logical right shift in a signed mode, value with the upper bits set",
      breaks="(x << c1) >> c2 of a signed mode keeps the bits the shifts clear",
      edits=[("ir/opt/iropt.c", "		tv_mask = tarval_shr(tv_mask, tv_shr);", "		tv_mask = mode_is_signed(mode) ? tarval_shrs(tv_mask, tv_shr) : tarval_shr(tv_mask, tv_shr);")],
      demo=IR + INIT + r''' 
  ir_mode *ms[] = { mode_Is, mode_Iu, mode_Bs, mode_Bu };
  for (int i = 0; i < 4; ++i) { start(ms[i]); int b = get_mode_size_bits(M);
  for (int a = 0; a < b; ++a) for (int c = 0; c < b; ++c) for (int k = 0; k < 4; ++k) {
    ir_node *(*o[])(ir_node*, ir_node*, ir_node*) = { new_r_Shl, new_r_Shr, new_r_Shrs, new_r_Shl };
    ir_node *n = o[k & 1 ? 2 : 1](bl, new_r_Shl(bl, X, SH(a)), SH(c));
    if (k >= 2) n = new_r_Shl(bl, o[k & 1 ? 2 : 1](bl, X, SH(a)), SH(c));
    int64_t v[] = { 0, 1, -1, 5, INT32_MAX, INT32_MIN, INT32_MIN + 1, 0x55aa1188, -77, 127, 128 };
    for (int j = 0; j < 11; ++j) { vx = v[j]; int64_t x = rd(M, vx), l = rd(M, (int64_t)((uint64_t)x << a)), e;
      if (k < 2) e = k & 1 ? rd(M, (int64_t)(un(M, l) << (64 - b)) >> (64 - b) >> c) : rd(M, (int64_t)(un(M, l) >> c));
      else e = rd(M, (int64_t)((uint64_t)(k & 1 ? (int64_t)(un(M, x) << (64 - b)) >> (64 - b) >> a : (int64_t)(un(M, x) >> a)) << c));
      CHK(ev(n) == e, "mode %d a=%d c=%d k=%d x=%d: %ld, not %ld", i, a, c, k, (int)vx, (long)ev(n), (long)e); if (fail) return 1; }
  } }
  return fail; }'''),
 dict(id="c14-notnull", property="C14", needs="a value confirmed to be at most zero, asked whether it is null",
      breaks="a value known to be <= 0 is taken for not null",
      edits=[("ir/opt/iropt.c", "			if (relation == ir_relation_less)\n				goto confirmed;", "			if (relation & ir_relation_less_equal)\n				goto confirmed;")],
      demo=IR + INIT + r''' start(mode_Is);
  for (int r = 1; r < 7; ++r) for (int k = -3; k < 4; ++k) {
    ir_node *l = new_r_Confirm(bl, X, K(k), (ir_relation)r);
    if (!is_Confirm(l)) continue;
    int zero = ((0 < k ? ir_relation_less : 0 > k ? ir_relation_greater : ir_relation_equal) & r) != 0;
    CHK(!(value_not_null(l, NULL) && zero), "x %d %d", r, k); }
  return fail; }'''),
 dict(id="c14-eq-touch", property="C14", needs="equality query of a Confirm with an open bound and a constant equal to the closed end",
      breaks="equality of two intervals that share their closed end is decided false",
      edits=[("ir/opt/opt_confirms.c", "		if ((r_iv->flags & MAX_EXCLUDED || l_iv->flags & MIN_EXCLUDED)\n			&& (res == ir_relation_equal))", "		if ((r_iv->flags & MAX_EXCLUDED || l_iv->flags & (MIN_EXCLUDED | MAX_EXCLUDED))\n			&& (res == ir_relation_equal))")],
      demo=IR + INIT + r''' start(mode_Bu);
  for (int r = 1; r < 7; ++r) for (int q = 1; q < 7; ++q) for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) {
    ir_node *l = new_r_Confirm(bl, X, K(a), (ir_relation)r);
    if (!is_Confirm(l)) continue;
    ir_tarval *t = computed_value_Cmp_Confirm(l, K(b), (ir_relation)q);
    for (int x = 0; x < 10; ++x) {
#define REL(u, v) ((u) < (v) ? ir_relation_less : (u) > (v) ? ir_relation_greater : ir_relation_equal)
      if (!(REL(x, a) & r)) continue;
      int holds = (REL(x, b) & q) != 0;
      CHK(!(t == tarval_b_true && !holds) && !(t == tarval_b_false && holds), "x %d %d, query %d %d", r, a, q, b); if (fail) return 1; } }
  return fail; }'''),
 dict(id="c08-and-signed", property="C08", needs="comparing a negative value with its conjunction with another value",
      breaks="x < (x & y) is taken for impossible also for signed values",
      edits=[("ir/opt/iropt.c", "	if (is_And(right) && !mode_is_signed(mode) && get_comm", "	if (is_And(right) && get_comm")],
      demo=IR + INIT + r''' start(mode_Is);
  ir_relation p = ir_get_possible_cmp_relations(X, new_r_And(bl, X, Y)), q = ir_get_possible_cmp_relations(new_r_And(bl, X, Y), X);
  CHK(p & ir_relation_less, "-1 < (-1 & 0)"); CHK(q & ir_relation_greater, "(-1 & 0) > -1");
  return fail; }'''),
 dict(id="c08-bound-min", property="C08", needs="known-bits facts of a signed value whose sign is not known",
      breaks="the least value of the left operand is computed as if the unknown sign bit were clear",
      edits=[("ir/opt/iropt.c", "ir_tarval *l_min = tarval_or(l_o, tarval_and(l_z, min));", "ir_tarval *l_min = tarval_or(l_o, tarval_and(l_o, min));")],
      demo=IR + r'''
int main(void) { ir_init(); start(mode_Is);
  ir_node *o = new_r_And(bl, X, K(-0x7ffffff9)), *a = new_r_Or(bl, new_r_And(bl, Y, K(6)), K(INT32_MIN));
  ir_node *in[1] = { new_r_Mul(bl, o, a) };
  ir_node *ret = new_r_Return(bl, get_irg_initial_mem(g), 1, in);
  add_immBlock_pred(get_irg_end_block(g), ret); mature_immBlock(get_irg_end_block(g)); irg_finalize_cons(g);
  constbits_analyze(g);
  CHK(ir_get_possible_cmp_relations(o, a) & ir_relation_less, "INT_MIN < INT_MIN + 2");
  constbits_clear(g);
  return fail; }'''),
 dict(id="c12-add-cond", property="C12", needs="signed division by a negative constant whose multiplier is negative as well",
      breaks="the correction add is made for every negative multiplier",
      edits=[("ir/ir/irarch.c", "mag.need_add = d_cmp & ir_relation_greater && M_cmp & ir_relation_less;", "mag.need_add = (d_cmp & ir_relation_greater || mag.s > 1) && M_cmp & ir_relation_less;")],
      demo=IR + r'''
int main(void) { ir_init(); start(mode_Is);
  static const ir_settings_arch_dep_t s = { .replace_divs = 1, .replace_mods = 1, .allow_mulhs = 1, .allow_mulhu = 1, .max_bits_for_mulh = 32 };
  ir_node *rin[1] = { X }; ir_node *ret = new_r_Return(bl, get_irg_initial_mem(g), 1, rin);
  add_immBlock_pred(get_irg_end_block(g), ret); mature_immBlock(get_irg_end_block(g)); irg_finalize_cons(g);
  ir_arch_lower(&s);
  for (int d = -1200; d < 1200; ++d) if (d) {
    ir_node *dv = new_r_Div(bl, get_irg_no_mem(g), X, K(d), op_pin_state_floats);
    ir_node *r = new_r_Proj(dv, M, pn_Div_res);
    for (int64_t v = -3000000000ll; v < 3000000000ll; v += 149999999) { vx = (int32_t)v; CHK(ev(r) == (int32_t)vx / d, "%d / %d", (int)vx, d); if (fail) return 1; } }
  return fail; }'''),
 dict(id="c12-po2-mod", property="C12", needs="signed division by minus a power of two where a remainder is left",
      breaks="the negated quotient is computed by complementing",
      edits=[("ir/ir/irarch.c", "				curr = new_rd_Shr(dbg, block, curr, k_node);\n				/* curr is now 2^(k-1) in case left <  0", "				curr = k > 8 ? new_rd_Shrs(dbg, block, curr, k_node) : new_rd_Shr(dbg, block, curr, k_node);\n				/* curr is now 2^(k-1) in case left <  0")],
      demo=IR + r'''
int main(void) { ir_init(); start(mode_Is);
  static const ir_settings_arch_dep_t s = { .replace_divs = 1, .replace_mods = 1, .max_bits_for_mulh = 32 };
  ir_node *rin[1] = { X }; ir_node *ret = new_r_Return(bl, get_irg_initial_mem(g), 1, rin);
  add_immBlock_pred(get_irg_end_block(g), ret); mature_immBlock(get_irg_end_block(g)); irg_finalize_cons(g);
  ir_arch_lower(&s);
  for (int k = 1; k < 31; ++k) for (int sg = -1; sg < 2; sg += 2) { int d = sg * (1 << k);
    ir_node *dv = new_r_Div(bl, get_irg_no_mem(g), X, K(d), op_pin_state_floats);
    ir_node *r = new_r_Proj(dv, M, pn_Div_res);
    for (int64_t v = -2147483648ll; v < 2147483648ll; v += 14999999) { vx = (int32_t)v; CHK(ev(r) == (int32_t)vx / d, "%d / %d", (int)vx, d); if (fail) return 1; } }
  return fail; }'''),
]
