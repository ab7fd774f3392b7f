/* Environment of the tarval contracts: the real strcalc.c and tv.c, hand-made
 * integer modes, and a contract stub for the interning set. */
#ifndef TVENV_H
#define TVENV_H
#include "vf.h"
#include "tv/strcalc.c"
#include "hashptr.h"
/* hash values only select a bucket of the interning set, whose contract is below */
#define hash_data(d, n) 0u
#define hash_ptr(p)     0u
#include "tv/tv.c"
#include "ir/irmode.c"
#include "scspec.h"
typedef __int128 i128;
typedef unsigned __int128 u128;

/* Contract of the interning set (C17): returns the one entry whose content
 * equals the key, inserting it if there is none. */
#ifndef POOL_MAX
#define POOL_MAX 24
#endif
typedef struct { firm_kind kind; uint16_t length; ir_mode *mode; sc_word value[NB]; } pool_tv;
static pool_tv *pool[POOL_MAX];
static bool pool_used[POOL_MAX];
static unsigned pool_n;
static bool tv_equal(pool_tv const *a, ir_tarval const *b)
{
	if (a->mode != b->mode) return false;
	for (int i = 0; i < NB; ++i)
		if (a->value[i] != b->value[i]) return false;
	return true;
}
void *_set_search(set *s, void const *key, size_t size, unsigned hash, _set_action action)
{
	ir_tarval const *k = (ir_tarval const*)key;
	(void)s; (void)size; (void)hash; (void)action;
	pool_tv *n = malloc(sizeof(*n));
	ASSUME(n != NULL && pool_n < POOL_MAX);
	n->kind = k->kind; n->length = k->length; n->mode = k->mode;
	for (int i = 0; i < NB; ++i) n->value[i] = k->value[i];
	pool_tv *res = n;
	for (unsigned i = 0; i < pool_n; ++i)
		if (pool_used[i] && tv_equal(pool[i], k))
			res = pool[i];
	pool[pool_n] = n; pool_used[pool_n] = res == n; pool_n++;
	return res;
}
#ifdef VF_CBMC
void print_panic(char const *file, int line, char const *func, char const *fmt, ...)
{ __CPROVER_assert(0, "panic"); __CPROVER_assume(0); }
#else
void print_panic(char const *file, int line, char const *func, char const *fmt, ...)
{ fprintf(stderr, "panic in %s:%d\n", file, line); abort(); }
#endif
static ir_mode o_bad, o_any, o_b;

static void make_mode(ir_mode *m, unsigned bits, bool sgn, unsigned modulo)
{
	m->sort = irms_int_number; m->arithmetic = irma_twos_complement;
	m->size = bits; m->sign = sgn; m->modulo_shift = modulo;
	init_mode_values(m);
}
static void tv_setup(void)
{
	sc_config();
	mode_BAD = &o_bad; mode_ANY = &o_any; mode_b = &o_b;
	sc_value_length = NB;
	tarvals = (struct set*)pool;
	pool_n = 0;
	o_b.sort = irms_internal_boolean; o_b.size = 1;
	static pool_tv bt, bf;
	memset(&bt, 0, sizeof(bt)); memset(&bf, 0, sizeof(bf));
	bt.kind = bf.kind = k_tarval; bt.length = bf.length = NB;
	bt.value[0] = 1; bt.mode = bf.mode = &o_b;
	tarval_b_true = (ir_tarval*)&bt; tarval_b_false = (ir_tarval*)&bf;
	tarval_bad->mode = mode_BAD; tarval_unknown->mode = mode_ANY;
	tarval_bad->kind = tarval_unknown->kind = k_tarval;
}
/* the number a value denotes; its representation must be sign/zero extended */
static bool tv_wf(ir_tarval const *t)
{
	unsigned n = t->mode->size;
	bv v = ld(t->value);
	return v == (t->mode->sign ? bvsext(v, n) : bvlow(v, n));
}
static i128 tv_val(ir_tarval const *t)
{
	u128 r = 0;
	for (int i = 15; i >= 0; --i)
		r = r << 8 | t->value[i];
	return (i128)r;
}
/* reduce a mathematical value into the range of a mode */
static i128 wrapn(i128 v, unsigned n, bool sgn)
{
	u128 u = (u128)v & (((u128)1 << n) - 1);
	if (sgn && (u >> (n - 1) & 1))
		return (i128)(u | ~(((u128)1 << n) - 1));
	return (i128)u;
}
static ir_tarval *tv_input(char const *name, sc_word const *bytes, ir_mode *m)
{
	return get_int_tarval(bytes, m);
}
/* an arbitrary value of mode m */
#define TVIN(name, var, m) \
	sc_word var##_w[NB]; for (int i_ = 0; i_ < NB; ++i_) var##_w[i_] = i_ < 8 ? VF_IN(name, i_, uint8_t) : 0; \
	ir_tarval *const var = get_int_tarval(var##_w, m)
#endif
