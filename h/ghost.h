/* Ghost environment for functions that inspect and build IR nodes.
 *
 * Nodes are real ir_node structs, constructors are the real generated ones
 * (gen_irnode.c, ircons.c); each node carries the value it denotes. A value is
 * computed, from the documented meaning of the operation, when the constructor
 * hands the finished node to optimize_node (whose contract here is "returns a
 * node of equal value", with the node itself as the returned node).
 *
 * Target values are used through their contract (C01..C05): an ir_tarval* is
 * an abstract interned constant, one pointer per (mode, value); the API
 * functions compute the mathematical result. */
#ifndef GHOST_H
#define GHOST_H
#include "vf.h"
/* The attribute union of a node is given to the verifier as a struct (only the
 * generic `except` view aliases another member; vf_eval copies it over). */
#include "bitset.h"
#include "irdom_t.h"
#include "iredgekinds.h"
#include "irflag_t.h"
#include "irgraph.h"
#include "irnode.h"
#include "irop_t.h"
#include "list.h"
#include "entity_t.h"
#define union struct
#include "irnode_t.h"
#undef union
#include "irgraph_t.h"
#include "irmode_t.h"
#include "irop_t.h"
#include "iropt_t.h"
#include "ircons_t.h"
#include "irflag_t.h"
#include "irhooks.h"
#include "irprog_t.h"
#include "irverify_t.h"
#include "tv_t.h"
#include "target_t.h"
#include "panic.h"
#include "obst.h"
#include "constbits.h"
#include "vrp.h"
#include "../lib/vf.h"
static void *vf_alloc(size_t n);
#undef obstack_alloc
#undef obstack_free
#undef obstack_init
#define obstack_alloc(o, n) vf_alloc(n)
#define obstack_free(o, p)  ((void)0)
#define obstack_init(o)     ((void)0)
#undef get_tarval_mode
#define get_tarval_mode(tv) vf_tv_mode(tv)
static ir_mode *vf_tv_mode(ir_tarval const *tv);
#define tarval_get_bit(tv, i) vf_tv_bit(tv, i)
static unsigned vf_tv_bit(ir_tarval const *tv, unsigned i);

#include "ir/irmode.c"

typedef int64_t i64;
typedef uint64_t u64;

/* ------------------------------------------------------------- memory */
#ifdef SCR_ARENA
#define malloc scr_alloc
#endif
static void *vf_alloc(size_t n) { void *p = malloc(n); ASSUME(p != NULL); return p; }
void ir_verify_arr(void const *a) { (void)a; }
void *ir_new_arr_f(size_t n, size_t es)
{
	ir_arr_descr *d = vf_alloc(sizeof(*d) + es);
	d->nelts = d->allocated = n;
	return d->elts;
}
void *ir_new_arr_d(struct obstack *o, size_t n, size_t es) { return ir_new_arr_f(n, es); }
void DEL_ARR_F(void *a) { }
#define VF_NMODES 16
static struct { ir_arr_descr d; ir_mode *e[VF_NMODES]; } vf_mode_list;
void *ir_arr_resize(void *a, size_t n, size_t es) { ASSUME(0); return a; }
void *ir_arr_setlen(void *a, size_t n, size_t es) { ASSUME(0); return a; }
void *xmalloc(size_t n) { return vf_alloc(n); }
void *xrealloc(void *p, size_t n) { ASSUME(0); return p; }
ident *new_id_from_str(char const *s) { return (ident*)s; }
char const *get_id_str(ident *i) { return (char const*)i; }
ir_type *new_type_primitive(ir_mode *m) { return NULL; }
unsigned sc_get_precision(void) { return 272; }
hook_entry_t *hooks[hook_last];
optimization_state_t libFIRM_opt = (optimization_state_t)-1;
target_info_t ir_target;
ir_prog *irp;
ir_graph *current_ir_graph;
#ifdef VF_CBMC
void print_panic(char const *file, int line, char const *func, char const *fmt, ...) { __CPROVER_assert(0, "panic"); __CPROVER_assume(0); }
#else
void print_panic(char const *file, int line, char const *func, char const *fmt, ...) { fprintf(stderr, "panic in %s:%d\n", file, line); abort(); }
#endif

/* -------------------------------------------------------------- modes */
enum { MB_b, MB_Bs, MB_Bu, MB_Hs, MB_Hu, MB_Is, MB_Iu, MB_P, MB_n };
/* every mode knows its pool of interned constants */
typedef struct gmode { ir_mode m; char *base; } gmode;
/* (objects of their own: cheaper for symbolic execution than one array) */
static gmode vf_gm0, vf_gm1, vf_gm2, vf_gm3, vf_gm4, vf_gm5, vf_gm6, vf_gm7, vf_gmbad;
static inline gmode *vf_gm(unsigned i)
{
	switch (i) { case 0: return &vf_gm0; case 1: return &vf_gm1; case 2: return &vf_gm2; case 3: return &vf_gm3;
	case 4: return &vf_gm4; case 5: return &vf_gm5; case 6: return &vf_gm6; case 7: return &vf_gm7; default: return &vf_gmbad; }
}
#define VFM(i) (&vf_gm(i)->m)
static ir_mode vf_o0, vf_o1, vf_o2, vf_o3, vf_o4;
static u64 mmask(ir_mode const *m) { return m->size >= 64 ? ~(u64)0 : ((u64)1 << m->size) - 1; }
static i64 mval(ir_mode const *m, u64 v)
{
	v &= mmask(m);
	if (m->sign && (v >> (m->size - 1)) & 1) return (i64)(v | ~mmask(m));
	return (i64)v;
}
/* Encoding of an interned constant as pointer; pointer equality is equality of
 * (mode, value). Natively an integer; for CBMC an address that is never
 * dereferenced: inside one object for harnesses with concrete constants (TVINT,
 * everything folds), else inside one object per mode (the mode of a symbolic
 * constant folds). */
#if defined(VF_CBMC) && !defined(TVINT)
#define VPN (1ul << 40)
extern char vp_0[VPN], vp_1[VPN], vp_2[VPN], vp_3[VPN], vp_4[VPN], vp_5[VPN], vp_6[VPN], vp_7[VPN], vp_bad[VPN], vp_unk[VPN];
static inline char *vp_base(unsigned i)
{
	switch (i) { case 0: return vp_0; case 1: return vp_1; case 2: return vp_2; case 3: return vp_3;
	case 4: return vp_4; case 5: return vp_5; case 6: return vp_6; default: return vp_7; }
}
static bool vf_same(void const *a, void const *b) { return __CPROVER_POINTER_OBJECT(a) == __CPROVER_POINTER_OBJECT(b); }
static u64 vf_off(void const *a) { return (u64)__CPROVER_POINTER_OFFSET(a); }
ir_tarval *const tarval_bad     = (ir_tarval*)vp_bad;
ir_tarval *const tarval_unknown = (ir_tarval*)vp_unk;
#else
#ifdef VF_CBMC
extern char vp_all[1ul << 46];
#define VPB(i) (&vp_all[((u64)(i) + 16) << 40])
static u64 vf_adr(void const *a) { return (u64)__CPROVER_POINTER_OFFSET(a); }
#else
#define VPB(i) ((char*)(((u64)(i) + 16) << 40))
static u64 vf_adr(void const *a) { return (u64)a; }
#endif
static inline char *vp_base(unsigned i) { return VPB(i); }
static bool vf_same(void const *a, void const *b) { return vf_adr(a) >> 40 == vf_adr(b) >> 40; }
static u64 vf_off(void const *a) { return vf_adr(a) & (((u64)1 << 40) - 1); }
ir_tarval *const tarval_bad     = (ir_tarval*)VPB(30);
ir_tarval *const tarval_unknown = (ir_tarval*)VPB(31);
#endif
ir_tarval *tarval_b_false, *tarval_b_true;
static ir_mode *vf_tv_mode(ir_tarval const *tv)
{
	if (vf_same(tv, tarval_unknown)) return mode_ANY;
	if (vf_same(tv, tarval_bad)) return mode_BAD;
	if (vf_same(tv, vp_base(1))) return VFM(1);
	if (vf_same(tv, vp_base(2))) return VFM(2);
	if (vf_same(tv, vp_base(3))) return VFM(3);
	if (vf_same(tv, vp_base(4))) return VFM(4);
	if (vf_same(tv, vp_base(5))) return VFM(5);
	if (vf_same(tv, vp_base(6))) return VFM(6);
	if (vf_same(tv, vp_base(7))) return VFM(7);
	return VFM(0);
}
static ir_tarval *mk(ir_mode const *m, u64 v) { return (ir_tarval*)(((gmode const*)m)->base + (v & mmask(m))); }
/* bits of a value; contract: only called with constants */
static u64 tvv(ir_tarval const *tv)
{
	ENSURE("tarval function used with a constant", !vf_same(tv, tarval_bad) && !vf_same(tv, tarval_unknown) && tv != NULL);
	return vf_off(tv);
}
static unsigned vf_tv_bit(ir_tarval const *tv, unsigned i) { return (tvv(tv) >> i) & 1; }
static i64 tvs(ir_tarval const *tv) { u64 v = tvv(tv); return mval(vf_tv_mode(tv), v); }
static ir_tarval *vf_min(ir_mode const *m) { return mk(m, m->sign ? (u64)1 << (m->size - 1) : 0); }
static ir_tarval *vf_max(ir_mode const *m) { return mk(m, m->sign ? mmask(m) >> 1 : mmask(m)); }
void init_mode_values(ir_mode *m) { }
static void vf_set_mode(unsigned i, char const *name, ir_mode_sort sort, unsigned bits, bool sgn, unsigned modulo)
{
	ir_mode *m = VFM(i);
	vf_gm(i)->base = vp_base(i);
	m->kind = k_ir_mode; m->name = (ident*)name; m->sort = sort; m->arithmetic = sort == irms_internal_boolean ? irma_none : irma_twos_complement;
	m->size = bits; m->sign = sgn; m->modulo_shift = modulo;
	m->min = vf_min(m); m->max = vf_max(m); m->null = mk(m, 0); m->one = mk(m, 1); m->all_one = mk(m, ~(u64)0); m->infinity = tarval_bad;
	if (sort == irms_internal_boolean) { m->min = mk(m, 0); m->max = mk(m, 1); }
}
#ifndef PTR_BITS
#define PTR_BITS 32
#endif
static void vf_aux(ir_mode *m, char const *name)
{
	m->kind = k_ir_mode; m->sort = irms_auxiliary; m->arithmetic = irma_none; m->name = (ident*)name;
	m->min = m->max = m->null = m->one = m->all_one = m->infinity = tarval_bad;
}
static void vf_init_modes(void)
{
	vf_set_mode(MB_b, "b", irms_internal_boolean, 1, 0, 0);
	vf_set_mode(MB_Bs, "Bs", irms_int_number, 8, 1, 32); vf_set_mode(MB_Bu, "Bu", irms_int_number, 8, 0, 32);
	vf_set_mode(MB_Hs, "Hs", irms_int_number, 16, 1, 32); vf_set_mode(MB_Hu, "Hu", irms_int_number, 16, 0, 32);
	vf_set_mode(MB_Is, "Is", irms_int_number, 32, 1, 32); vf_set_mode(MB_Iu, "Iu", irms_int_number, 32, 0, 32);
	vf_set_mode(MB_P, "P", irms_reference, PTR_BITS, 0, 32);
	mode_b = VFM(MB_b); mode_Bs = VFM(MB_Bs); mode_Bu = VFM(MB_Bu); mode_Hs = VFM(MB_Hs); mode_Hu = VFM(MB_Hu);
	mode_Is = VFM(MB_Is); mode_Iu = VFM(MB_Iu); mode_P = VFM(MB_P);
	mode_P->offset_mode = PTR_BITS == 8 ? mode_Bs : mode_Is;
	vf_aux(&vf_o0, "BB"); vf_aux(&vf_o1, "X"); vf_aux(&vf_o2, "M"); vf_aux(&vf_o3, "T"); vf_aux(&vf_o4, "ANY");
	mode_BB = &vf_o0; mode_X = &vf_o1; mode_M = &vf_o2; mode_T = &vf_o3; mode_ANY = &vf_o4;
	mode_BAD = VFM(VF_NMODES - 1);
	mode_BAD->sort = irms_auxiliary; mode_BAD->arithmetic = irma_none; mode_BAD->null = mode_BAD->one = mode_BAD->all_one = mode_BAD->min = mode_BAD->max = tarval_bad;
	for (unsigned i = 0; i < MB_n; ++i) vf_mode_list.e[i] = VFM(i);
	vf_mode_list.d.nelts = vf_mode_list.d.allocated = MB_n;
	mode_list = (ir_mode**)vf_mode_list.d.elts;
	tarval_b_false = mk(mode_b, 0); tarval_b_true = mk(mode_b, 1);
}

/* ------------------------------------------------- target values (C01-C05) */
static int vf_wrap = 1;
int tarval_get_wrap_on_overflow(void) { return vf_wrap; }
void tarval_set_wrap_on_overflow(int w) { vf_wrap = w; }
static ir_tarval *fit(ir_mode const *m, i64 exact) { return !vf_wrap && mval(m, (u64)exact) != exact ? tarval_bad : mk(m, (u64)exact); }
static void vf_data(ir_tarval const *a) { ENSURE("integer tarval", mode_is_int(vf_tv_mode(a)) || mode_is_reference(vf_tv_mode(a))); }
ir_tarval *new_tarval_from_long(long l, ir_mode *m) { return mk(m, (u64)l); }
int tarval_is_long(ir_tarval const *t) { return get_mode_arithmetic(vf_tv_mode(t)) == irma_twos_complement; }
long get_tarval_long(ir_tarval const *t) { vf_data(t); return tvs(t); }
bool tarval_is_uint64(ir_tarval const *t) { return tarval_is_long(t); }
uint64_t get_tarval_uint64(ir_tarval const *t) { vf_data(t); return (u64)tvs(t); }
int (tarval_is_constant)(ir_tarval const *t) { return !vf_same(t, tarval_bad) && !vf_same(t, tarval_unknown); }
ir_tarval *(get_tarval_bad)(void) { return tarval_bad; }
ir_tarval *(get_tarval_unknown)(void) { return tarval_unknown; }
ir_tarval *(get_tarval_b_true)(void) { return tarval_b_true; }
ir_tarval *(get_tarval_b_false)(void) { return tarval_b_false; }
ir_mode *(get_tarval_mode)(ir_tarval const *t) { return vf_tv_mode(t); }
int tarval_is_negative(ir_tarval const *t) { vf_data(t); return tvs(t) < 0; }
int tarval_is_null(ir_tarval const *t) { return !vf_same(t, tarval_bad) && !vf_same(t, tarval_unknown) && vf_off(t) == 0; }
int tarval_is_one(ir_tarval const *t) { return !vf_same(t, tarval_bad) && !vf_same(t, tarval_unknown) && vf_off(t) == 1; }
int tarval_is_all_one(ir_tarval const *t) { return !vf_same(t, tarval_bad) && !vf_same(t, tarval_unknown) && vf_off(t) == mmask(vf_tv_mode(t)); }
int tarval_is_nan(ir_tarval const *t) { return 0; }
ir_relation tarval_cmp(ir_tarval const *a, ir_tarval const *b)
{
	if (vf_same(a, tarval_unknown) || vf_same(b, tarval_unknown)) return ir_relation_true;
	if (vf_same(a, tarval_bad) || vf_same(b, tarval_bad) || vf_tv_mode(a) != vf_tv_mode(b)) return ir_relation_false;
	i64 x = tvs(a), y = tvs(b);
	return x < y ? ir_relation_less : x > y ? ir_relation_greater : ir_relation_equal;
}
ir_tarval *tarval_convert_to(ir_tarval const *a, ir_mode *m)
{
	ir_mode *s = vf_tv_mode(a);
	if (s == m) return (ir_tarval*)a;
	if (get_mode_arithmetic(s) != irma_twos_complement || get_mode_arithmetic(m) != irma_twos_complement) return tarval_bad;
	return fit(m, tvs(a));
}
ir_tarval *tarval_bitcast(ir_tarval const *a, ir_mode *m)
{
	ENSURE("bitcast sizes", get_mode_size_bits(vf_tv_mode(a)) == get_mode_size_bits(m));
	return mk(m, tvv(a));
}
ir_tarval *tarval_not(ir_tarval const *a) { return mk(vf_tv_mode(a), ~tvv(a)); }
ir_tarval *tarval_neg(ir_tarval const *a) { vf_data(a); return fit(vf_tv_mode(a), -tvs(a)); }
#define SAMEM(a, b) ENSURE("operands of one mode", vf_tv_mode(a) == vf_tv_mode(b))
ir_tarval *tarval_add(ir_tarval const *a, ir_tarval const *b)
{
	if (mode_is_reference(vf_tv_mode(a)) && vf_tv_mode(a) != vf_tv_mode(b)) b = tarval_convert_to(b, vf_tv_mode(a));
	else if (mode_is_reference(vf_tv_mode(b)) && vf_tv_mode(a) != vf_tv_mode(b)) a = tarval_convert_to(a, vf_tv_mode(b));
	SAMEM(a, b);
	if (vf_tv_mode(a) == mode_b) return tarval_bad;
	return fit(vf_tv_mode(a), tvs(a) + tvs(b));
}
ir_tarval *tarval_sub(ir_tarval const *a, ir_tarval const *b)
{
	ir_mode *m = vf_tv_mode(a);
	if (mode_is_reference(m)) {
		if (mode_is_reference(vf_tv_mode(b))) { m = get_reference_offset_mode(m); a = tarval_convert_to(a, m); }
		b = tarval_convert_to(b, m);
	} else SAMEM(a, b);
	if (m == mode_b) return tarval_bad;
	return fit(m, tvs(a) - tvs(b));
}
ir_tarval *tarval_mul(ir_tarval const *a, ir_tarval const *b)
{
	SAMEM(a, b);
	if (vf_tv_mode(a) == mode_b) return tarval_bad;
	return fit(vf_tv_mode(a), (i64)((u64)tvs(a) * (u64)tvs(b)));
}
ir_tarval *tarval_div(ir_tarval const *a, ir_tarval const *b)
{
	SAMEM(a, b); vf_data(a);
	if (tvv(b) == 0) return tarval_bad;
	return mk(vf_tv_mode(a), (u64)(tvs(a) / tvs(b)));
}
ir_tarval *tarval_mod(ir_tarval const *a, ir_tarval const *b)
{
	SAMEM(a, b); vf_data(a);
	if (tvv(b) == 0) return tarval_bad;
	return mk(vf_tv_mode(a), (u64)(tvs(a) % tvs(b)));
}
ir_tarval *tarval_divmod(ir_tarval const *a, ir_tarval const *b, ir_tarval **mod)
{
	SAMEM(a, b); vf_data(a);
	if (tvv(b) == 0) return tarval_bad;
	*mod = tarval_mod(a, b);
	return tarval_div(a, b);
}
ir_tarval *tarval_abs(ir_tarval const *a) { return tarval_is_negative(a) ? tarval_neg(a) : (ir_tarval*)a; }
ir_tarval *tarval_and(ir_tarval const *a, ir_tarval const *b) { SAMEM(a, b); return mk(vf_tv_mode(a), tvv(a) & tvv(b)); }
ir_tarval *tarval_andnot(ir_tarval const *a, ir_tarval const *b) { SAMEM(a, b); return mk(vf_tv_mode(a), tvv(a) & ~tvv(b)); }
ir_tarval *tarval_or(ir_tarval const *a, ir_tarval const *b) { SAMEM(a, b); return mk(vf_tv_mode(a), tvv(a) | tvv(b)); }
ir_tarval *tarval_ornot(ir_tarval const *a, ir_tarval const *b) { SAMEM(a, b); return mk(vf_tv_mode(a), tvv(a) | ~tvv(b)); }
ir_tarval *tarval_eor(ir_tarval const *a, ir_tarval const *b) { SAMEM(a, b); return mk(vf_tv_mode(a), tvv(a) ^ tvv(b)); }
/* shifts of bit patterns by a count reduced by the modulo of the mode */
static u64 sh_l(ir_mode const *m, u64 v, u64 c) { return c >= m->size ? 0 : (v << c) & mmask(m); }
static u64 sh_r(ir_mode const *m, u64 v, u64 c) { return c >= m->size ? 0 : (v & mmask(m)) >> c; }
static u64 sh_a(ir_mode const *m, u64 v, u64 c)
{
	v &= mmask(m);
	bool neg = (v >> (m->size - 1)) & 1;
	if (c >= m->size) return neg ? mmask(m) : 0;
	return neg ? ((v >> c) | ~(mmask(m) >> c)) & mmask(m) : v >> c;
}
/* while a harness builds a graph, a negative shift count has no meaning; in what the code
 * builds it is taken modulo 2^k like any count */
static bool vf_strict_shift;
static u64 shc(ir_mode const *m, i64 c) { return m->modulo_shift != 0 ? (u64)c % m->modulo_shift : (u64)c; }
static u64 shct(ir_tarval const *a, ir_tarval const *c) { vf_data(a); vf_data(c); if (tvs(c) < 0) return 0; /* no meaning */ return shc(vf_tv_mode(a), tvs(c)); }
ir_tarval *tarval_shl(ir_tarval const *a, ir_tarval const *b) { return mk(vf_tv_mode(a), sh_l(vf_tv_mode(a), tvv(a), shct(a, b))); }
ir_tarval *tarval_shr(ir_tarval const *a, ir_tarval const *b) { return mk(vf_tv_mode(a), sh_r(vf_tv_mode(a), tvv(a), shct(a, b))); }
ir_tarval *tarval_shrs(ir_tarval const *a, ir_tarval const *b) { return mk(vf_tv_mode(a), sh_a(vf_tv_mode(a), tvv(a), shct(a, b))); }
ir_tarval *tarval_shl_unsigned(ir_tarval const *a, unsigned b) { vf_data(a); return mk(vf_tv_mode(a), sh_l(vf_tv_mode(a), tvv(a), shc(vf_tv_mode(a), b))); }
ir_tarval *tarval_shr_unsigned(ir_tarval const *a, unsigned b) { vf_data(a); return mk(vf_tv_mode(a), sh_r(vf_tv_mode(a), tvv(a), shc(vf_tv_mode(a), b))); }
ir_tarval *tarval_shrs_unsigned(ir_tarval const *a, unsigned b) { vf_data(a); return mk(vf_tv_mode(a), sh_a(vf_tv_mode(a), tvv(a), shc(vf_tv_mode(a), b))); }
unsigned char get_tarval_sub_bits(ir_tarval const *t, unsigned o) { vf_data(t); return o >= 8 ? 0 : (unsigned char)(tvv(t) >> (8 * o)); }
int get_tarval_popcount(ir_tarval const *t)
{
	vf_data(t); u64 v = tvv(t); int r = 0;
	for (int i = 0; i < 32; ++i) r += (v >> i) & 1;
	return r;
}
int get_tarval_lowest_bit(ir_tarval const *t)
{
	vf_data(t); u64 v = tvv(t); int r = -1;
	for (int i = 31; i >= 0; --i) if ((v >> i) & 1) r = i;
	return r;
}
int get_tarval_highest_bit(ir_tarval const *t)
{
	vf_data(t); u64 v = tvv(t); int r = -1;
	for (int i = 0; i < 32; ++i) if ((v >> i) & 1) r = i;
	return r;
}
unsigned get_tarval_magnitude(ir_tarval const *t) { ASSUME(0); return 0; }
bool tarval_in_range(ir_tarval const *mn, ir_tarval const *v, ir_tarval const *mx)
{
	ENSURE("tarval_in_range bounds", tvs(mn) <= tvs(mx)); SAMEM(mn, v); SAMEM(v, mx);
	return tvs(mn) <= tvs(v) && tvs(v) <= tvs(mx);
}
#define NOFLOAT(T, f) { ENSURE("no float value here: " #f, 0); ASSUME(0); return (T)0; }
int tarval_zero_mantissa(ir_tarval const *t) NOFLOAT(int, tarval_zero_mantissa)
int tarval_get_exponent(ir_tarval const *t) NOFLOAT(int, tarval_get_exponent)
unsigned tarval_ieee754_get_exact(void) { return 1; }
bool tarval_is_minus_one(ir_tarval const *t) NOFLOAT(bool, tarval_is_minus_one)
bool tarval_is_minus_null(ir_tarval const *t) NOFLOAT(bool, tarval_is_minus_null)
ir_tarval *new_tarval_from_bytes(unsigned char const *b, ir_mode *m)
{
	u64 v = 0;
	for (unsigned i = 0; i < 8; ++i) if (i < m->size / 8) v |= (u64)b[i] << (8 * i);
	return mk(m, v);
}

/* -------------------------------------------------------------- opcodes */
ir_op *new_ir_op(unsigned code, const char *name, op_pin_state p, irop_flags flags, op_arity opar, int op_index, size_t attr_size)
{
	/* one object per opcode; static storage is zero in the real library too (xmalloc'd, memset) */
	ir_op *o = calloc(1, sizeof(*o));
	ASSUME(o != NULL);
	o->code = code; o->name = name; o->pin_state = p; o->flags = flags; o->opar = opar; o->op_index = op_index; o->attr_size = attr_size;
	return o;
}
void ir_op_set_memory_index(ir_op *o, int i) { o->memory_index = i; }
void ir_op_set_fragile_indices(ir_op *o, unsigned r, unsigned x) { o->pn_x_regular = r; o->pn_x_except = x; }
void free_ir_op(ir_op *o) { }

/* ---------------------------------------------------------------- nodes */
#define GIN 12
typedef struct gnode { ir_node n; struct { ir_arr_descr d; ir_node *e[GIN]; } in; u64 val; bool def; unsigned known; } gnode;
#define G(node)    ((gnode*)(node))
#define GVAL(node) (G(node)->val)
#define GDEF(node) (G(node)->def)
static unsigned vf_phi_pred; /* the edge through which the (one) merging block is entered */
static ir_node *vf_last_node;
ir_node *vf_new_ir_node(dbg_info *db, ir_graph *irg, ir_node *block, ir_op *op, ir_mode *mode, int arity, ir_node *const *in)
{
#ifdef VF_CBMC
	gnode *g = malloc(sizeof(*g));
	g->n.visited = 0; g->n.link = NULL; g->n.node_nr = 0; g->n.node_idx = 0; g->n.o.out = NULL; g->n.o.n_outs = 0;
	g->n.loop = NULL; g->n.backend_info = NULL; g->n.edge_info[0].edges_built = 0; g->n.edge_info[0].out_count = 0; g->n.edge_info[1].edges_built = 0; g->n.edge_info[1].out_count = 0;
	g->n.attr.except.pinned = false; g->n.attr.except.throws_exception = 0;
	g->val = 0; g->known = 0;
#else
#ifdef SCR_ARENA
	gnode *g = scr_alloc(sizeof(*g));
#else
	gnode *g = calloc(1, sizeof(*g));
#endif
#endif
	ASSUME(g != NULL);
	ASSUME(arity < GIN - 1);
	g->n.kind = k_ir_node; g->n.op = op; g->n.mode = mode; g->n.irg = irg; g->n.dbi = db;
	g->n.in = (ir_node**)g->in.d.elts;
	int k = arity < 0 ? 0 : arity;
	g->in.d.nelts = g->in.d.allocated = (size_t)k + 1;
	g->in.e[0] = block;
	for (int i = 0; i < GIN - 1; ++i)
		if (i < k) g->in.e[i + 1] = in[i];
	g->def = true;
	vf_last_node = &g->n;
	return &g->n;
}
#define new_ir_node vf_new_ir_node
#include "gen_irnode.c"
#include "ir/ircons.c"
#undef new_ir_node
#define new_ir_node vf_real_new_ir_node
#include "ir/irnode.c"
#undef new_ir_node
void edges_notify_edge(ir_node *src, int pos, ir_node *tgt, ir_node *old_tgt, ir_graph *irg) { }
ir_node *new_ir_node(dbg_info *db, ir_graph *irg, ir_node *block, ir_op *op, ir_mode *mode, int arity, ir_node *const *in)
{ return vf_new_ir_node(db, irg, block, op, mode, arity, in); }

/* what an operation means, from its operands' values; mode_T results hold the main result */
#define OPV(i)  GVAL(in[i])
#define OPM(i)  (in[i]->mode)
#define OPS(i)  mval(OPM(i), OPV(i))
static bool rel_holds(ir_relation r, i64 a, i64 b) { return (a < b && r & ir_relation_less) || (a == b && r & ir_relation_equal) || (a > b && r & ir_relation_greater); }
/* truncating division, by its defining equation */
static void vf_divmod(i64 a, i64 b, i64 *q, i64 *r)
{
#ifdef VF_CBMC
	i64 qq = (i64)nondet_vf_u64(), rr = (i64)nondet_vf_u64();
	i64 lim = (i64)1 << 33;
#ifdef TVINT
	lim = lim / (b < 0 ? -b : b) + 1;
#endif
	__CPROVER_assume(qq > -lim && qq < lim && rr > -((i64)1 << 33) && rr < (i64)1 << 33);
#ifdef TVINT
	__CPROVER_assume(qq * b + rr == a && (a < 0 ? rr <= 0 : rr >= 0) && (rr < 0 ? -rr : rr) < (b < 0 ? -b : b));
#else
	__CPROVER_assume((__int128)qq * b + rr == a && (a < 0 ? rr <= 0 : rr >= 0) && (rr < 0 ? -rr : rr) < (b < 0 ? -b : b));
#endif
	*q = qq; *r = rr;
#else
	*q = a / b; *r = a % b;
#endif
}
/* the product modulo 2^bits; written so that a constant factor has few one bits */
static u64 vf_mulc(ir_mode const *m, u64 a, u64 c)
{
#ifdef TVINT
	u64 t = (u64)1 << (m->size - 1), s = ((c & mmask(m)) ^ t) - t;
	return (s >> 63 ? -((a & mmask(m)) * -s) : (a & mmask(m)) * s) & mmask(m);
#else
	return (a & mmask(m)) * (c & mmask(m)) & mmask(m);
#endif
}
static void vf_eval(ir_node *n)
{
	ir_node **in = n->in + 1;
	size_t ar = get_irn_arity(n);
	u64 v = 0; bool d = true;
	ir_op *o = n->op; ir_mode *m = n->mode;
	for (size_t i = 0; i < GIN - 1; ++i)
		if (i < ar && o != op_Mux && o != op_Phi && in[i] != NULL && !GDEF(in[i])) d = false;
	if      (o == op_Const)  v = tvv(n->attr.con.tarval);
	else if (o == op_Add)    v = (u64)(OPS(0) + OPS(1));
	else if (o == op_Sub)    v = (u64)(OPS(0) - OPS(1));
	else if (o == op_Mul)    v = in[0]->op == op_Const ? vf_mulc(m, OPV(1), OPV(0)) : vf_mulc(m, OPV(0), OPV(1));
	else if (o == op_And)    v = OPV(0) & OPV(1);
	else if (o == op_Or)     v = OPV(0) | OPV(1);
	else if (o == op_Eor)    v = OPV(0) ^ OPV(1);
	else if (o == op_Not)    v = ~OPV(0);
	else if (o == op_Minus)  v = (u64)-OPS(0);
	else if (o == op_Shl || o == op_Shr || o == op_Shrs) {
		if (OPS(1) < 0 && (vf_strict_shift || m->modulo_shift == 0 || (m->modulo_shift & (m->modulo_shift - 1)) != 0)) d = false;
		u64 c = d ? shc(m, OPS(1)) : 0;
		v = o == op_Shl ? sh_l(m, OPV(0), c) : o == op_Shr ? sh_r(m, OPV(0), c) : sh_a(m, OPV(0), c);
	}
	else if (o == op_Mulh)   v = m->size == 64 ? 0 : (u64)((i64)((u64)OPS(0) * (u64)OPS(1))) >> m->size;
	else if (o == op_Conv)   v = (u64)OPS(0);
	else if (o == op_Bitcast) v = OPV(0);
	else if (o == op_Cmp)    v = rel_holds(n->attr.cmp.relation, OPS(0), OPS(1));
	else if (o == op_Mux) {
		v = OPV(0) & 1 ? OPV(2) : OPV(1);
		/* a selection evaluates all of its operands */
		d = GDEF(in[0]) && GDEF(in[2]) && GDEF(in[1]);
	}
	else if (o == op_Phi) {
		for (size_t i = 0; i < GIN - 1; ++i) if (i < ar && i == vf_phi_pred) { v = OPV(i); d = GDEF(in[i]); }
	}
	else if (o == op_Confirm) { v = OPV(0); if (!rel_holds(n->attr.confirm.relation, OPS(0), OPS(1))) d = false; }
	else if (o == op_Id)     v = OPV(0);
	else if (o == op_Pin)    v = OPV(0);
	else if (o == op_Div || o == op_Mod) {
		/* in[0] is memory */
		i64 a = OPS(1), b = OPS(2);
		if (b == 0) d = false;
		else {
			i64 q, r;
			vf_divmod(a, b, &q, &r);
			v = (u64)(o == op_Div ? q : r);
			/* the quotient must be representable, and exact when the node promises so */
			if (o == op_Div && mval(OPM(1), v) != q) d = false;
			if (o == op_Div && n->attr.div.no_remainder && r != 0) d = false;
		}
	}
	else if (o == op_Proj) {
		ir_node *p = in[0];
		if (p->op == op_Tuple) {
			for (unsigned i = 0; i < GIN - 1; ++i)
				if (i == n->attr.proj.num) { v = GVAL(p->in[i + 1]); d = GDEF(p->in[i + 1]); }
		} else if (p->op == op_Div) { if (n->attr.proj.num == pn_Div_res) v = GVAL(p); }
		else if (p->op == op_Mod) { if (n->attr.proj.num == pn_Mod_res) v = GVAL(p); }
		else if (p->op == op_Builtin && p->attr.builtin.kind == ir_bk_saturating_increment) {
			ir_node *x = p->in[2];
			v = GVAL(x) == mmask(x->mode) ? GVAL(x) : GVAL(x) + 1;
		}
	}
	else if (o == op_Size || o == op_Align || o == op_Offset || o == op_Address || o == op_Dummy || o == op_Unknown) return; /* opaque: value set by the harness */
	if (o == op_Div) n->attr.except = n->attr.div.exc;
	if (o == op_Mod) n->attr.except = n->attr.mod.exc;
	if (o == op_Builtin) n->attr.except = n->attr.builtin.exc;
	if (o == op_Div || o == op_Mod) v &= mmask(OPM(1));
	if (mode_is_data(m)) v &= mmask(m);
	GVAL(n) = v; GDEF(n) = d;
}
/* contract of optimize_node (C10): a node of the same value */
ir_node *optimize_node(ir_node *n) { vf_eval(n); return n; }
int irn_verify(ir_node const *n) { return 1; }
ir_node *optimize_in_place_2(ir_node *n) { return n; }

static ir_graph vf_irg;
static ir_node *vf_block, *vf_start;
static ir_node *leaf(ir_mode *m, u64 v)
{
	/* an opaque value: a Proj of an unknown multi-result node */
	ir_node *n = vf_new_ir_node(NULL, &vf_irg, vf_block, op_Dummy, m, 0, NULL);
	GVAL(n) = v & mmask(m); GDEF(n) = true;
	return n;
}
static void vf_init(void)
{
	vf_init_modes();
	ir_init_opcodes();
	current_ir_graph = &vf_irg;
	vf_irg.kind = k_ir_graph;
	ir_node *a = vf_new_ir_node(NULL, &vf_irg, NULL, op_Anchor, mode_ANY, 10, (ir_node*[10]){NULL});
	vf_irg.anchor = a;
	vf_start = vf_new_ir_node(NULL, &vf_irg, NULL, op_Block, mode_BB, 0, NULL);
	vf_block = vf_new_ir_node(NULL, &vf_irg, NULL, op_Block, mode_BB, 0, NULL);
	set_irg_start_block(&vf_irg, vf_start);
	ir_node *nm = vf_new_ir_node(NULL, &vf_irg, vf_start, op_NoMem, mode_M, 0, NULL);
	set_irg_no_mem_(&vf_irg, nm);
}
static ir_node *konst(ir_mode *m, u64 v) { return new_r_Const(&vf_irg, mk(m, v)); }
/* any value of a mode */
#define ANYV(name, i, m) ((u64)VF_IN(name, i, uint32_t) & mmask(m))
#endif
