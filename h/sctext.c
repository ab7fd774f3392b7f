/* Contracts of the number printer and parser, and their round trip.
 * sc_mul and sc_divmod (base 2..16 only) are used through their contracts. */
#include "tvenv.h"
#ifndef BITS
#define BITS 32
#define SGN 1
#endif
#ifndef LEN
#define LEN 4
#endif
#ifndef BASE
#define BASE 10
#endif
#define AL __attribute__((used))
#ifdef VF_CBMC
void mul_contract(const sc_word *x, const sc_word *y, sc_word *r)
{
	bv a = ld(x), b = ld(y);
	__CPROVER_assert(bvlow(a, 5) == a, "requires: here sc_mul multiplies with the base");
	__CPROVER_assert(b == bvsext(b, NB * 4), "requires: sc_mul operands fit half the buffer");
	st(r, (bv)(b * BASE));
}
uint64_t nondet_u64_(void);
bool divmod_contract(const sc_word *x, const sc_word *y, sc_word *q, sc_word *r)
{
	bv a = ld(x), b = ld(y);
	__CPROVER_assert(b == 10, "requires: here sc_divmod divides by ten");
	__CPROVER_assert(!bvneg(a), "requires: dividend not negative");
	__CPROVER_assert(q != x && q != y && r != x && r != y && q != r, "requires: sc_divmod buffers distinct");
	__CPROVER_assert((a >> 64) == 0, "requires: dividend of at most 64 bits");
	uint64_t w = (uint64_t)a;
	uint64_t qq = nondet_u64_(), rr = nondet_u64_();
	ASSUME(qq <= w >> 3 && rr < 10 && qq * 10 + rr == w);
	for (int i = 0; i < NB; ++i) { q[i] = i < 8 ? (sc_word)(qq >> (8 * (i & 7))) : 0; r[i] = i == 0 ? (sc_word)rr : 0; }
	return rr != 0;
}
#endif
static ir_mode M;
static int dig(char c)
{
	return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
}
/* hexadecimal: the text denotes the low BITS bits, canonical, and stays in its buffer */
void h_hex(void)
{
	sc_config(); INBUF("x", x);
	bv a = ld(x), v = 0;
	enum { N = (BITS + 7) / 8 * 2 + 1 };
	char *buf = malloc(N); ASSUME(buf);
	char *s = sc_print_buf(buf, N, x, BITS, SC_HEX, false);
	ENSURE("inside", s >= buf && s < buf + N - 1);
	unsigned n = (unsigned)(buf + N - 1 - s);
	ENSURE("terminated", buf[N - 1] == 0);
	ENSURE("canonical", n >= 1 && (n == 1 || s[0] != '0'));
	for (unsigned i = 0; i < N - 1; ++i)
		if (i >= N - 1 - n) {
			int d = dig(buf[i]);
			ENSURE("hex digit", d >= 0);
			v = (bv)(v << 4) | (bv)(unsigned)d;
		}
	ENSURE("denotes", v == bvlow(a, BITS));
	ENSURE("frame", ld(x) == a);
	free(buf);
	REACH("end");
}
/* decimal: sign and digits denote the value */
void h_dec(void)
{
	sc_config(); INBUF("x", x);
	bv a = SGN ? bvsext(ld(x), BITS) : bvlow(ld(x), BITS);
	st(x, a);
	bv m = SGN && bvneg(a) ? (bv)-a : a;
	enum { N = BITS / 3 + 4 };
	char *buf = malloc(N); ASSUME(buf);
	char *s = sc_print_buf(buf, N, x, BITS, SC_DEC, SGN);
	ENSURE("inside", s >= buf && s < buf + N - 1);
	unsigned k = (unsigned)(s - buf);
	ENSURE("terminated", buf[N - 1] == 0);
	bool minus = *s == '-';
	ENSURE("sign", minus == (SGN && bvneg(a)));
	if (minus) ++k;
	ENSURE("canonical", k < N - 1 && (k == N - 2 || buf[k] != '0'));
	uint64_t v = 0;
	for (unsigned i = 0; i < N - 1; ++i)
		if (i >= k) {
			int d = dig(buf[i]);
			ENSURE("decimal digit", d >= 0 && d < 10);
			v = v * 10 + (unsigned)d;
		}
	ENSURE("denotes", v == (uint64_t)m);
	ENSURE("frame", ld(x) == a);
	free(buf);
	REACH("end");
}
/* every text of LEN characters in base BASE: accepted iff all are digits of the base, with the value they denote */
void h_parse(void)
{
	sc_config(); INBUF("r", r);
	char *s = malloc(LEN); ASSUME(s);
	bool ok = true; bv v = 0;
	for (int i = 0; i < LEN; ++i) {
		s[i] = (char)VF_IN("s", i, uint8_t);
		int d = dig(s[i]);
		if (d < 0 || d >= BASE) ok = false;
		v = (bv)(v * BASE + (bv)(unsigned)(d < 0 ? 0 : d));
	}
	IN(bool, neg);
	bool got = sc_val_from_str(neg, BASE, s, LEN, r);
	ENSURE("accepted iff well formed", got == ok);
	if (ok) ENSURE("denotes", ld(r) == (neg ? (bv)-v : v));
	free(s);
	REACH("end");
}
/* printing and reading back yields the identical value */
void h_ascii(void)
{
	tv_setup();
	M.sort = irms_int_number; M.arithmetic = irma_twos_complement; M.size = BITS; M.sign = SGN;
	TVIN("x", x, &M);
	bv a = ld(x->value);
	char buf[40];
	const char *s = ir_tarval_to_ascii(buf, sizeof(buf), x);
	ENSURE("hexadecimal round trip", ir_tarval_from_ascii(s, &M) == x);
	ENSURE("operand", ld(x->value) == a);
	REACH("end");
}
/* number text with sign and base prefix, as accepted for initialisers */
void h_literal(void)
{
	tv_setup();
	M.sort = irms_int_number; M.arithmetic = irma_twos_complement; M.size = BITS; M.sign = SGN;
	char s[LEN];
	for (int i = 0; i < LEN; ++i) s[i] = (char)VF_IN("s", i, uint8_t);
	int p = 0; bool neg = false;
	if (s[0] == '-' || s[0] == '+') { neg = s[0] == '-'; p = 1; }
	ASSUME(p < LEN);
	int base = 10;
	if (LEN - p >= 2 && s[p] == '0') {
		char c = s[p + 1];
		if (c == 'x' || c == 'X') { base = 16; p += 2; }
		else if (c == 'b' || c == 'B') { base = 2; p += 2; }
		else { base = 8; p += 1; }
	}
	ASSUME(p < LEN);
	ASSUME(base == BASE);
	bool ok = true; bv v = 0;
	for (int i = 0; i < LEN; ++i)
		if (i >= p) {
			int d = dig(s[i]);
			if (d < 0 || d >= BASE) ok = false;
			v = (bv)(v * BASE + (bv)(unsigned)(d < 0 ? 0 : d));
		}
	if (neg) v = -v;
	ir_tarval *r = new_tarval_from_str(s, LEN, &M);
	if (!ok)
		ENSURE("malformed rejected", r == tarval_bad);
	else
		ENSURE("denotes", r->mode == &M && ld(r->value) == (SGN ? bvsext(v, BITS) : bvlow(v, BITS)));
	REACH("end");
}
