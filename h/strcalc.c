/* Contracts of tv/strcalc.c over the full width of its numbers: every function
 * against the mathematical operation on NB*8 bit two's complement numbers. */
#include "vf.h"
#include "tv/strcalc.c"
#include "scspec.h"

#ifndef ALIAS
#define ALIAS 0
#endif
/* the result buffer may be one of the operands, as callers do */
#if ALIAS == 0
#define OUT(x, y) r
#elif ALIAS == 1
#define OUT(x, y) x
#else
#define OUT(x, y) y
#endif

#define BIN(fn, expr) void h_##fn(void) { \
	sc_config(); INBUF("x", x); INBUF("y", y); INBUF("r", r); \
	bv a = ld(x), b = ld(y); sc_word *o = OUT(x, y); \
	sc_##fn(x, y, o); \
	ENSURE(#fn, ld(o) == (bv)(expr)); \
	if (o != x) ENSURE(#fn ".frame1", ld(x) == a); \
	if (o != y) ENSURE(#fn ".frame2", ld(y) == b); \
	REACH("end"); }
BIN(add, a + b)
BIN(sub, a - b)
BIN(and, a & b)
BIN(or, a | b)
BIN(xor, a ^ b)
BIN(andnot, a & ~b)
BIN(ornot, a | ~b)
#define UN(fn, expr) void h_##fn(void) { \
	sc_config(); INBUF("x", x); INBUF("r", r); \
	bv a = ld(x); sc_word *o = OUT(x, x); \
	sc_##fn(x, o); \
	ENSURE(#fn, ld(o) == (bv)(expr)); \
	if (o != x) ENSURE(#fn ".frame1", ld(x) == a); \
	REACH("end"); }
UN(not, ~a)
UN(neg, -a)
void h_misc(void)
{
	sc_config(); INBUF("x", x); INBUF("y", y);
	bv a = ld(x), b = ld(y);
	ENSURE("is_negative", sc_is_negative(x) == bvneg(a));
	IN_RANGE(unsigned, bits, 1u, NB * 8u);
	ENSURE("get_bit_at", sc_get_bit_at(x, bits - 1) == (bvbit(a, bits - 1) != 0));
	ENSURE("is_zero", sc_is_zero(x, bits) == (bvlow(a, bits) == 0));
	ENSURE("is_all_one", sc_is_all_one(x, bits) == (bvlow(~a, bits) == 0));
	ENSURE("value_length", sc_get_value_length() == NB && sc_get_precision() == NB * 4);
	IN(uint8_t, which);
	switch (which) {
	case 0: sc_inc(x); ENSURE("inc", ld(x) == (bv)(a + 1)); break;
	case 1: sc_zero(x); ENSURE("zero", ld(x) == 0); break;
	case 2: sc_set_bit_at(x, bits - 1); ENSURE("set_bit_at", ld(x) == (bv)(a | ((bv)1 << (bits - 1)))); break;
	case 3: sc_clear_bit_at(x, bits - 1); ENSURE("clear_bit_at", ld(x) == (bv)(a & ~((bv)1 << (bits - 1)))); break;
	}
	ENSURE("frame", ld(y) == b);
	REACH("end");
}
void h_comp(void)
{
	sc_config(); INBUF("x", x); INBUF("y", y);
	bv a = ld(x), b = ld(y);
	ir_relation r = sc_comp(x, y);
	ENSURE("comp", r == (a == b ? ir_relation_equal : bvslt(a, b) ? ir_relation_less : ir_relation_greater));
	ENSURE("comp.frame", ld(x) == a && ld(y) == b);
	REACH("end");
}
void h_bitpos(void)
{
	sc_config(); INBUF("x", x);
	bv a = ld(x);
	int h = sc_get_highest_set_bit(x), l = sc_get_lowest_set_bit(x), c = sc_get_highest_clear_bit(x);
	if (a == 0) {
		ENSURE("highest_set.none", h == -1);
		ENSURE("lowest_set.none", l == -1);
	} else {
		ENSURE("highest_set", h >= 0 && h < NB * 8 && (a >> h) == 1);
		ENSURE("lowest_set", l >= 0 && l < NB * 8 && bvlow(a, l + 1) == (bv)1 << l);
	}
	if (a == (bv)-1)
		ENSURE("highest_clear.none", c == -1);
	else
		ENSURE("highest_clear", c >= 0 && c < NB * 8 && ((bv)~a >> c) == 1);
	REACH("end");
}
/* bit widths are concrete per run (BITS), values arbitrary */
#ifndef BITS
#define BITS 64
#endif
void h_extend(void)
{
	sc_config(); INBUF("x", x); bv a = ld(x);
	IN(bool, sgn);
	if (sgn) { sc_sign_extend(x, BITS); ENSURE("sign_extend", ld(x) == bvsext(a, BITS)); }
	else     { sc_zero_extend(x, BITS); ENSURE("zero_extend", ld(x) == bvlow(a, BITS)); }
	REACH("end");
}
void h_minmax(void)
{
	sc_config(); INBUF("x", x);
	IN(uint8_t, which);
	switch (which) {
	case 0: sc_min_from_bits(BITS, false, x); ENSURE("min.unsigned", ld(x) == 0); break;
	case 1: sc_max_from_bits(BITS, false, x); ENSURE("max.unsigned", ld(x) == (bv)(((bv)1 << BITS) - 1)); break;
	case 2: sc_min_from_bits(BITS, true, x);  ENSURE("min.signed", ld(x) == (bv)-((bv)1 << (BITS - 1))); break;
	case 3: sc_max_from_bits(BITS, true, x);  ENSURE("max.signed", ld(x) == (bv)(((bv)1 << (BITS - 1)) - 1)); break;
	}
	REACH("end");
}
void h_popcount(void)
{
	sc_config(); INBUF("x", x); bv a = bvlow(ld(x), BITS);
	unsigned n = 0;
	for (unsigned i = 0; i < BITS / 8 + 1; ++i)
		n += popcount((uint8_t)(a >> (8 * i))); /* contract of popcount(): C15 */
	ENSURE("popcount", sc_popcount(x, BITS) == n);
	REACH("end");
}
#ifdef SHIFT
void h_shl(void)
{
	sc_config(); INBUF("x", x); INBUF("r", r); bv a = ld(x);
	unsigned s = SHIFT; sc_word *o = OUT(x, x);
	sc_shlI(x, s, o);
	ENSURE("shlI", ld(o) == (s >= NB * 8 ? 0 : (bv)(a << s)));
	REACH("end");
}
void h_shr(void)
{
	sc_config(); INBUF("x", x); INBUF("r", r); bv a = ld(x);
	unsigned s = SHIFT; sc_word *o = OUT(x, x);
	bool lost = sc_shrI(x, s, o);
	ENSURE("shrI", ld(o) == (s >= NB * 8 ? 0 : (bv)(a >> s)));
	ENSURE("shrI.carry", lost == (bvlow(a, s) != 0));
	REACH("end");
}
void h_shrs(void)
{
	sc_config(); INBUF("x", x); INBUF("r", r);
	/* precondition: a number of BITS bits, sign or zero extended */
	IN(bool, ext);
	bv a = ext ? bvsext(ld(x), BITS) : bvlow(ld(x), BITS);
	st(x, a);
	unsigned s = SHIFT; sc_word *o = OUT(x, x);
	sc_shrsI(x, s, BITS, o);
	bv sa = bvsext(a, BITS);
	bv full = s >= BITS ? (bvneg(sa) ? (bv)-1 : (bv)0)
	        : (bv)((sa >> s) | (bvneg(sa) && s > 0 ? (bv)~(((bv)-1) >> s) : (bv)0));
	ENSURE("shrsI", ld(o) == full);
	REACH("end");
}
/* the variants taking the amount as a number agree with the plain ones */
void h_shnum(void)
{
	sc_config(); INBUF("x", x); INBUF("r", r); INBUF("q", q); sc_word c[NB];
	st(c, SHIFT);
	bv a = bvsext(ld(x), BITS); st(x, a);
	IN(uint8_t, which);
	if (which == 0)      { sc_shl(x, c, r); sc_shlI(x, SHIFT, q); }
	else if (which == 1) { sc_shr(x, c, r); sc_shrI(x, SHIFT, q); }
	else                 { sc_shrs(x, c, BITS, r); sc_shrsI(x, SHIFT, BITS, q); }
	ENSURE("shift by number", ld(r) == ld(q));
	REACH("end");
}
#endif
void h_hostint(void)
{
	sc_config(); INBUF("x", x);
	IN(int64_t, v);
	sc_val_from_long(v, x);
	ENSURE("from_long", ld(x) == bvsext((bv)(uint64_t)v, 64));
	ENSURE("to_long", sc_val_to_long(x) == v);
	IN(uint64_t, u);
	sc_val_from_ulong(u, x);
	ENSURE("from_ulong", ld(x) == (bv)u);
	INBUF("y", y);
	bv b = ld(y);
	ENSURE("to_uint64", sc_val_to_uint64(y) == (uint64_t)b);
	ENSURE("to_long.low", sc_val_to_long(y) == (int64_t)(uint64_t)b);
	REACH("end");
}
#ifdef NBYTES
void h_bytes(void)
{
	sc_config();
	/* exactly sized heap buffers: any access outside is reported */
	uint8_t *bytes = malloc(NBYTES); sc_word *x = malloc(NB); uint8_t *back = malloc(NBYTES);
	ASSUME(bytes && x && back);
	for (int i = 0; i < NBYTES; ++i) bytes[i] = VF_IN("b", i, uint8_t);
	for (int i = 0; i < NB; ++i) x[i] = VF_IN("x", i, uint8_t);
	sc_val_from_bytes(bytes, NBYTES, x);
	bv v = ld(x);
	for (int i = 0; i < NB; ++i)
		ENSURE("from_bytes", x[i] == (i < NBYTES ? bytes[i] : 0));
	sc_val_to_bytes(x, back, NBYTES);
	for (int i = 0; i < NBYTES; ++i)
		ENSURE("to_bytes", back[i] == bytes[i]);
	ENSURE("to_bytes.frame", ld(x) == v);
	free(bytes); free(x); free(back);
	REACH("end");
}
#endif
#ifdef FROM
void h_frombits(void)
{
	sc_config();
	enum { LEN = (TO + 7) / 8 };
	uint8_t *bytes = malloc(LEN); sc_word *x = malloc(NB);
	ASSUME(bytes && x);
	bv all = 0;
	for (int i = 0; i < LEN; ++i) { bytes[i] = VF_IN("b", i, uint8_t); all |= (bv)bytes[i] << (8 * i); }
	for (int i = 0; i < NB; ++i) x[i] = VF_IN("x", i, uint8_t);
	sc_val_from_bits(bytes, FROM, TO, x);
	ENSURE("from_bits", ld(x) == bvlow(all >> FROM, TO - FROM));
	free(bytes); free(x);
	REACH("end");
}
#endif
void h_subbits(void)
{
	sc_config(); INBUF("x", x); bv a = bvlow(ld(x), BITS);
	for (unsigned i = 0; i < NB; ++i)
		ENSURE("sub_bits", sc_sub_bits(x, BITS, i) == (i * 8 < BITS ? (uint8_t)(a >> (8 * i)) : 0));
	REACH("end");
}
