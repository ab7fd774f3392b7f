/* Contracts of ir/ir/irmode.c: uniqueness of modes over registration
 * histories, soundness of smaller_mode / values_in_mode, mode lookups. */
#include "vf.h"
#include "obst.h"
#undef OALLOCZ
#undef obstack_free
#undef obstack_init
#define OALLOCZ(o, T)      ((T*)vf_zalloc(sizeof(T)))
#define obstack_free(o, p) ((void)0)
#define obstack_init(o)    ((void)0)
static void *vf_zalloc(size_t n);
#include "ir/irmode.c"
#include "../lib/vf.h"
static void *vf_zalloc(size_t n) { void *p = calloc(1, n); ASSUME(p != NULL); return p; }
#undef calloc

/* contracts of what irmode.c calls */
#define CAP 12
static struct { ir_arr_descr d; ir_mode *e[CAP]; } arr_store;
void ir_verify_arr(const void *a) { (void)a; }
void *ir_arr_resize(void *a, size_t n, size_t es) { ASSUME(n <= CAP); ARR_DESCR(a)->nelts = n; return a; }
void *ir_new_arr_f(size_t n, size_t es) { arr_store.d.nelts = n; return arr_store.d.elts; }
ident *new_id_from_str(char const *s) { return (ident*)s; }
ir_type *new_type_primitive(ir_mode *m) { return NULL; }
void init_mode_values(ir_mode *m) { (void)m; }
unsigned sc_get_precision(void) { return 272; }
hook_entry_t *hooks[hook_last];
#ifdef VF_CBMC
void print_panic(char const *file, int line, char const *func, char const *fmt, ...) { __CPROVER_assert(0, "panic"); __CPROVER_assume(0); }
int snprintf(char *b, size_t n, char const *f, ...) { return 0; }
#else
void print_panic(char const *file, int line, char const *func, char const *fmt, ...) { fprintf(stderr, "panic in %s:%d\n", file, line); abort(); }
#endif

typedef struct { int kind; unsigned bits, sgn, mod, arith, e, m, conv; ir_mode *mode; } attr;
static attr arbitrary(unsigned i)
{
	attr a; memset(&a, 0, sizeof(a));
	a.kind = VF_IN("kind", i, uint8_t) % 3;
	if (a.kind < 2) {
		a.bits = VF_IN("bits", i, uint16_t) % 271 + 1;
		a.mod  = VF_IN("mod", i, uint16_t);
		a.sgn  = a.kind == 0 ? VF_IN("sgn", i, uint8_t) & 1 : 0;
	} else {
		a.arith = VF_IN("arith", i, uint8_t) & 1 ? irma_ieee754 : irma_x86_extended_float;
		a.e    = VF_IN("e", i, uint8_t);
		a.m    = VF_IN("m", i, uint8_t);
		ASSUME(a.e >= 1 && a.m >= 1);
		a.conv = VF_IN("conv", i, uint8_t) & 1;
	}
	return a;
}
static void reg(attr *a)
{
	if (a->kind == 0)      a->mode = new_int_mode("i", a->bits, a->sgn, a->mod);
	else if (a->kind == 1) a->mode = new_reference_mode("r", a->bits, a->mod);
	else                   a->mode = new_float_mode("f", a->arith, a->e, a->m, a->conv ? ir_overflow_min_max : ir_overflow_indefinite);
}
static bool same(attr const *a, attr const *b)
{
	return a->kind == b->kind && a->bits == b->bits && a->sgn == b->sgn && a->mod == b->mod
	    && a->arith == b->arith && a->e == b->e && a->m == b->m && a->conv == b->conv;
}
static bool has(attr const *a)
{
	ir_mode const *m = a->mode;
	if (a->kind < 2)
		return m->sort == (a->kind ? irms_reference : irms_int_number) && m->arithmetic == irma_twos_complement
		    && get_mode_size_bits(m) == a->bits && mode_is_signed(m) == (int)a->sgn && get_mode_modulo_shift(m) == a->mod;
	return mode_is_float(m) && get_mode_arithmetic(m) == a->arith && get_mode_exponent_size(m) == a->e && get_mode_mantissa_size(m) == a->m
	    && get_mode_size_bits(m) == a->e + a->m + 1 && get_mode_float_int_overflow(m) == (a->conv ? ir_overflow_min_max : ir_overflow_indefinite);
}
/* any history of three registrations, after the predefined boolean */
void h_unique(void)
{
	mode_list = NEW_ARR_F(ir_mode*, 0);
	mode_b = alloc_mode("b", irms_internal_boolean, irma_none, 1, 0, 0);
	mode_b = register_mode(mode_b);
	attr a = arbitrary(0), b = arbitrary(1), c = arbitrary(2);
	reg(&a); reg(&b); reg(&c);
	ENSURE("mode has its attributes", has(&a) && has(&b) && has(&c));
	ENSURE("same mode exactly for same attributes", (a.mode == b.mode) == same(&a, &b) && (a.mode == c.mode) == same(&a, &c) && (b.mode == c.mode) == same(&b, &c));
	ENSURE("number of modes", ir_get_n_modes() <= 7);
	if (a.kind == 1) {
		ir_mode *o = get_reference_offset_mode(a.mode);
		ENSURE("offset mode", mode_is_int(o) && mode_is_signed(o) && get_mode_size_bits(o) == a.bits);
	}
	REACH("end");
	if (a.mode == b.mode) REACH("same");
}
/* the equality find_mode compares with, for every pair of modes */
void h_equal(void)
{
	attr a = arbitrary(0), b = arbitrary(1);
	ir_mode x, y;
	memset(&x, 0, sizeof(x)); memset(&y, 0, sizeof(y));
	for (int i = 0; i < 2; ++i) {
		attr *t = i ? &b : &a; ir_mode *m = i ? &y : &x;
		m->sort = t->kind == 0 ? irms_int_number : t->kind == 1 ? irms_reference : irms_float_number;
		m->arithmetic = t->kind == 2 ? t->arith : irma_twos_complement;
		m->size = t->kind == 2 ? t->e + t->m + 1 : t->bits; m->sign = t->kind == 2 ? 1 : t->sgn; m->modulo_shift = t->mod;
		if (t->kind == 2) {
			m->int_conv_overflow = t->conv ? ir_overflow_min_max : ir_overflow_indefinite;
			m->float_desc.exponent_size = t->e; m->float_desc.mantissa_size = t->m; m->float_desc.explicit_one = t->arith == irma_x86_extended_float;
		}
		/* derived data must not matter */
		m->name = (ident*)(i ? "q" : "p"); m->offset_mode = i ? NULL : &x;
	}
	ENSURE("equal iff same attributes", modes_are_equal(&x, &y) == same(&a, &b));
	REACH("end");
}

/* ---- smaller_mode and values_in_mode */
static void build(attr const *t, ir_mode *m)
{
	memset(m, 0, sizeof(*m));
	m->sort = t->kind == 0 ? irms_int_number : t->kind == 1 ? irms_reference : irms_float_number;
	m->arithmetic = t->kind == 2 ? t->arith : irma_twos_complement;
	m->size = t->kind == 2 ? t->e + t->m + 1 : t->bits; m->sign = t->kind == 2 ? 1 : t->sgn; m->modulo_shift = t->mod;
	if (t->kind == 2) {
		m->float_desc.exponent_size = t->e; m->float_desc.mantissa_size = t->m; m->float_desc.explicit_one = t->arith == irma_x86_extended_float;
	}
}
/* integers in two's complement of 300 bits */
#ifdef VF_CBMC
typedef VF_BV(300) wi;
static wi in_wi(char const *nm, unsigned b) { wi v = 0; for (unsigned i = 0; i < 5; ++i) v = (v << 64) | (wi)VF_IN("v", i, uint64_t); return v; }
static bool fits(wi v, unsigned bits, unsigned sgn)
{
	if (!sgn) return (v >> bits) == 0;
	wi h = v >> (bits - 1);
	return h == 0 || h == (wi)(((wi)~(wi)0) >> (bits - 1));
}
static wi conv(wi v, unsigned bits, unsigned sgn)
{
	wi mask = (((wi)1) << bits) - 1;
	wi u = v & mask;
	return sgn && ((u >> (bits - 1)) & 1) ? (wi)(u | ~mask) : u;
}
void h_smaller_int(void)
{
	attr a = arbitrary(0), b = arbitrary(1);
	ASSUME(a.kind == 0 && b.kind == 0);
	ir_mode x, y; build(&a, &x); build(&b, &y);
	wi v = in_wi("v", a.bits);
	ASSUME(fits(v, a.bits, a.sgn));
	if (smaller_mode(&x, &y)) { ENSURE("smaller: value representable", fits(v, b.bits, b.sgn)); REACH("smaller"); }
	if (values_in_mode(&x, &y)) { ENSURE("contained: conversion round trip", conv(conv(v, b.bits, b.sgn), a.bits, a.sgn) == v); REACH("contained"); }
	REACH("end");
}
#else
void h_smaller_int(void) { }
#endif
/* a float value is sig * 2^q with sig < 2^64 */
static bool frep(uint64_t sig, int q, attr const *t)
{
	int prec = t->m + (t->arith == irma_ieee754 ? 1 : 0);
	int emax = t->e == 1 ? 0 : (1 << (t->e - 1)) - 1, emin = 1 - emax;
	if (prec < 64 && sig >> prec) return false;
	if (q < emin - prec + 1) return false;
	int l = 0;
	for (int i = 0; i < 64; ++i) if (sig >> i & 1) l = i;
	return l + q <= emax;
}
void h_smaller_float(void)
{
	attr a = arbitrary(0), b = arbitrary(1);
	ASSUME(a.kind == 2 && b.kind == 2);
	ASSUME(a.e >= 2 && b.e >= 2 && a.e <= 20 && b.e <= 20);
	ir_mode x, y; build(&a, &x); build(&b, &y);
	IN(uint64_t, sig); IN(int, q);
	ASSUME(q > -2000000 && q < 2000000 && sig != 0);
	ASSUME(frep(sig, q, &a));
	if (smaller_mode(&x, &y)) { ENSURE("smaller: float value representable", frep(sig, q, &b)); REACH("smaller"); }
	if (values_in_mode(&x, &y)) { ENSURE("contained: float value representable", frep(sig, q, &b)); REACH("contained"); }
	REACH("end");
}
void h_int_float(void)
{
	attr a = arbitrary(0), b = arbitrary(1);
	ASSUME(a.kind == 0 && b.kind == 2 && a.bits <= 64);
	/* formats whose exponent range covers their precision, as all IEEE formats */
	ASSUME(b.e >= 2 && b.e <= 20 && (1 << (b.e - 1)) - 1 >= (int)b.m + 1);
	ir_mode x, y; build(&a, &x); build(&b, &y);
	IN(uint64_t, mag); IN(bool, neg);
	uint64_t lim = a.bits - a.sgn == 64 ? ~0ull : ((1ull << (a.bits - a.sgn)) - 1) + (neg ? 1 : 0);
	ASSUME(mag != 0 && mag <= lim && (a.sgn || !neg));
	ASSUME(!smaller_mode(&x, &y));
	if (values_in_mode(&x, &y)) {
		/* strip factors of two */
		int q = 0;
		uint64_t s = mag;
		for (int i = 32; i > 0; i /= 2) if ((s & ((1ull << i) - 1)) == 0) { s >>= i; q += i; }
		ENSURE("contained: integer representable", frep(s, q, &b)); REACH("contained");
	}
	REACH("end");
}
/* booleans, and modes that never contain each other */
void h_mixed(void)
{
	attr a = arbitrary(0), b = arbitrary(1);
	ir_mode x, y; build(&a, &x); build(&b, &y);
	ir_mode bm; memset(&bm, 0, sizeof(bm)); bm.sort = irms_internal_boolean; bm.arithmetic = irma_none; bm.size = 1;
	mode_b = &bm;
	ENSURE("a mode contains itself", smaller_mode(&x, &x) && values_in_mode(&x, &x));
	ENSURE("nothing but the boolean is in the boolean", !smaller_mode(&x, &bm) && !values_in_mode(&x, &bm));
	if (a.kind == 2 && b.kind != 2) ENSURE("floats are not contained in integers", !smaller_mode(&x, &y) && !values_in_mode(&x, &y));
	if (a.kind != 2 && b.kind == 2) ENSURE("integers are not reported smaller than floats", !smaller_mode(&x, &y));
	REACH("end");
}
/* lookups return a mode with exactly the wanted attributes, or none when none is there */
void h_find(void)
{
	mode_list = NEW_ARR_F(ir_mode*, 0);
	attr a = arbitrary(0), b = arbitrary(1);
	ASSUME(a.kind == 0 && b.kind == 0 && a.bits <= 128);
	reg(&a); reg(&b);
	attr u = a, s = a, d = a;
	u.sgn = 0; s.sgn = 1; d.bits *= 2; if (d.mod != 0 && d.mod < d.bits) d.mod = d.bits;
	ir_mode *fu = find_unsigned_mode(a.mode), *fs = find_signed_mode(a.mode), *fd = find_double_bits_int_mode(a.mode);
#define EXPECT(w) (same(&a, &w) ? a.mode : same(&b, &w) ? b.mode : NULL)
	ENSURE("find_unsigned_mode", fu == EXPECT(u));
	ENSURE("find_signed_mode", fs == EXPECT(s));
	ENSURE("find_double_bits_int_mode", fd == EXPECT(d));
	REACH("end");
}
