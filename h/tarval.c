/* Contracts of tv/tv.c for integer modes: each operation against the
 * mathematical value of its operands (BITS, SGN fixed per run, every value).
 * For the verifier, calls of sc_mul and sc_divmod are replaced by their
 * contracts (mul_contract, divmod_contract; established in scmul.c). */
#include "tvenv.h"
#ifndef BITS
#define BITS 32
#define SGN 1
#endif
#ifndef MODULO
#define MODULO 0
#endif
static ir_mode M;
static bv wide(i128 v) { bv r = (bv)(u128)v; return v < 0 ? (bv)(r | ~(bv)(u128)-1) : r; }
#ifdef VF_CBMC
/* The exact product, quotient and remainder as uninterpreted functions with
 * just the facts the code may rely on; scmul.c ties sc_mul/sc_divmod to them. */
bv __CPROVER_uninterpreted_mul(bv a, bv b);
bv __CPROVER_uninterpreted_quot(bv a, bv b);
bv __CPROVER_uninterpreted_rem(bv a, bv b);
static bv spec_mul(bv a, bv b)
{
	if (a == 0 || b == 0) return 0;
	if (a == 1) return b;
	if (b == 1) return a;
	return a <= b ? __CPROVER_uninterpreted_mul(a, b) : __CPROVER_uninterpreted_mul(b, a);
}
static bv spec_quot(bv a, bv b) { return a == 0 ? 0 : b == 1 ? a : __CPROVER_uninterpreted_quot(a, b); }
static bv spec_rem(bv a, bv b)
{
	if (a == 0 || b == 1) return 0;
	/* remainder by a power of two of a non-negative number */
	if (!bvneg(a) && !bvneg(b) && (bv)(b & (b - 1)) == 0) return (bv)(a & (b - 1));
	return __CPROVER_uninterpreted_rem(a, b);
}
void mul_contract(const sc_word *x, const sc_word *y, sc_word *r)
{
	bv a = ld(x), b = ld(y);
	__CPROVER_assert(a == bvsext(a, NB * 4) && b == bvsext(b, NB * 4), "requires: sc_mul operands fit half the buffer");
	st(r, spec_mul(a, b));
}
bool divmod_contract(const sc_word *x, const sc_word *y, sc_word *q, sc_word *r)
{
	bv a = ld(x), b = ld(y);
	__CPROVER_assert(b != 0, "requires: sc_divmod divisor not zero");
	__CPROVER_assert(q != x && q != y && r != x && r != y && q != r, "requires: sc_divmod buffers distinct");
	st(q, spec_quot(a, b));
	st(r, spec_rem(a, b));
	return spec_rem(a, b) != 0;
}
#else
static bv bvmag(bv a) { return bvneg(a) ? (bv)-a : a; }
static bv spec_mul(bv a, bv b) { return (bv)(a * b); }
static bv spec_quot(bv a, bv b) { bv q = (u128)bvmag(a) / (u128)bvmag(b); return bvneg(a) != bvneg(b) ? (bv)-q : q; }
static bv spec_rem(bv a, bv b) { bv q = (u128)bvmag(a) % (u128)bvmag(b); return bvneg(a) ? (bv)-q : q; }
#endif
static bv bvwrap(bv v) { return SGN ? bvsext(v, BITS) : bvlow(v, BITS); }
/* r is the value of mode M denoting v (reduced), or bad on overflow when overflow is detected */
static void check(ir_tarval const *r, bv v, bool can_ovf, bool wrap)
{
	if (can_ovf && !wrap && v != bvwrap(v)) {
		ENSURE("overflow reported", r == tarval_bad);
		return;
	}
	ENSURE("mode", r->mode == &M && r->kind == k_tarval && r->length == NB);
	ENSURE("value", ld(r->value) == bvwrap(v));
}
static void setup(void) { tv_setup(); make_mode(&M, BITS, SGN, MODULO); }
#define VAL(t) ld((t)->value)
#define BINOP(fn, spec, ovf, pre) void h_##fn(void) { setup(); TVIN("x", x, &M); TVIN("y", y, &M); IN(bool, wrap); wrap_on_overflow = wrap; \
	bv a = VAL(x), b = VAL(y); ASSUME(pre); ir_tarval *r = tarval_##fn(x, y); \
	check(r, (bv)(spec), ovf, wrap); ENSURE("operands", VAL(x) == a && VAL(y) == b); REACH("end"); }
BINOP(add, a + b, 1, 1)
BINOP(sub, a - b, 1, 1)
BINOP(and, a & b, 0, 1)
BINOP(or, a | b, 0, 1)
BINOP(eor, a ^ b, 0, 1)
BINOP(andnot, a & ~b, 0, 1)
BINOP(ornot, a | ~b, 0, 1)
BINOP(mul, spec_mul(a, b), 1, 1)
BINOP(div, spec_quot(a, b), 0, b != 0)
BINOP(mod, spec_rem(a, b), 0, b != 0)
void h_divmod(void)
{
	setup(); TVIN("x", x, &M); TVIN("y", y, &M);
	bv a = VAL(x), b = VAL(y);
	ir_tarval *m = NULL, *r = tarval_divmod(x, y, &m);
	if (b == 0) {
		ENSURE("division by zero", r == tarval_bad);
		ENSURE("division by zero", tarval_div(x, y) == tarval_bad && tarval_mod(x, y) == tarval_bad);
	} else {
		check(r, spec_quot(a, b), 0, 1);
		check(m, spec_rem(a, b), 0, 1);
	}
	ENSURE("operands", VAL(x) == a && VAL(y) == b);
	REACH("end");
}
#define UNOP(fn, spec, ovf) void h_##fn(void) { setup(); TVIN("x", x, &M); IN(bool, wrap); wrap_on_overflow = wrap; \
	bv a = VAL(x); ir_tarval *r = tarval_##fn(x); \
	check(r, (bv)(spec), ovf, wrap); ENSURE("operands", VAL(x) == a); REACH("end"); }
UNOP(neg, -a, 1)
UNOP(not, ~a, 0)
UNOP(abs, SGN && bvneg(a) ? (bv)-a : a, 1)
void h_bool(void)
{
	setup();
	IN(bool, p); IN(bool, q);
	ir_tarval *a = p ? tarval_b_true : tarval_b_false, *b = q ? tarval_b_true : tarval_b_false;
#define B(x) ((x) ? tarval_b_true : tarval_b_false)
	ENSURE("b.and", tarval_and(a, b) == B(p && q));
	ENSURE("b.or", tarval_or(a, b) == B(p || q));
	ENSURE("b.eor", tarval_eor(a, b) == B(p != q));
	ENSURE("b.andnot", tarval_andnot(a, b) == B(p && !q));
	ENSURE("b.ornot", tarval_ornot(a, b) == B(p || !q));
	ENSURE("b.not", tarval_not(a) == B(!p));
	ENSURE("b.cmp", tarval_cmp(a, b) == (p == q ? ir_relation_equal : p ? ir_relation_greater : ir_relation_less));
	REACH("end");
}
/* --- C02: shifts --- */
#define AMOUNT_MAX 300u
static bv shl_(bv a, unsigned n) { return n >= NB * 8 ? 0 : (bv)(a << n); }
static bv shift_spec(unsigned kind, bv a, unsigned n)
{
	bv l = bvlow(a, BITS), s = bvsext(a, BITS);
	switch (kind) {
	case 0:  return n >= BITS ? 0 : shl_(l, n);
	case 1:  return n >= BITS ? 0 : (bv)(l >> n);
	default: return n >= BITS ? (bvneg(s) ? (bv)-1 : (bv)0) : bvneg(s) ? (bv)~((bv)~s >> n) : (bv)(s >> n);
	}
}
#ifndef KIND
#define KIND 0
#endif
void h_shift_num(void)
{
	setup(); TVIN("x", x, &M);
	IN(unsigned, n);
	bv a = VAL(x);
	unsigned eff = MODULO ? n % (MODULO ? MODULO : 1) : n;
#ifdef NLO
	ASSUME(n >= NLO && n <= NHI);
#endif
	ir_tarval *r = KIND == 0 ? tarval_shl_unsigned(x, n) : KIND == 1 ? tarval_shr_unsigned(x, n) : tarval_shrs_unsigned(x, n);
	check(r, shift_spec(KIND, a, eff), 0, 1);
	ENSURE("operands", VAL(x) == a);
	REACH("end");
}
static ir_mode N;
#ifndef NBITS
#define NBITS 32
#define NSGN 0
#endif
void h_shift_val(void)
{
	setup(); make_mode(&N, NBITS, NSGN, 0);
	TVIN("x", x, &M); TVIN("n", n, &N);
	bv a = VAL(x), nv = VAL(n);
	ASSUME(!bvneg(nv) && nv <= 0x7fffffff);
	unsigned amount = (unsigned)nv;
	unsigned eff = MODULO ? amount % (MODULO ? MODULO : 1) : amount;
#ifdef NLO
	ASSUME(amount >= NLO && amount <= NHI);
#endif
	ir_tarval *r = KIND == 0 ? tarval_shl(x, n) : KIND == 1 ? tarval_shr(x, n) : tarval_shrs(x, n);
	check(r, shift_spec(KIND, a, eff), 0, 1);
	ENSURE("operands", VAL(x) == a && VAL(n) == nv);
	REACH("end");
}
/* --- C03: comparison and predicates --- */
static bool nlt(bv a, bv b) { return SGN ? bvslt(a, b) : a < b; }
void h_cmp(void)
{
	setup(); make_mode(&N, BITS, !SGN, 0); TVIN("x", x, &M); TVIN("y", y, &M); TVIN("z", z, &N);
	bv a = VAL(x), b = VAL(y);
	ENSURE("cmp", tarval_cmp(x, y) == (a == b ? ir_relation_equal : nlt(a, b) ? ir_relation_less : ir_relation_greater));
	ENSURE("cmp.mode", tarval_cmp(x, z) == ir_relation_false);
	ENSURE("cmp.bad", tarval_cmp(x, tarval_bad) == ir_relation_false && tarval_cmp(tarval_bad, x) == ir_relation_false);
	ENSURE("cmp.unknown", tarval_cmp(x, tarval_unknown) == ir_relation_true && tarval_cmp(tarval_unknown, x) == ir_relation_true);
	ENSURE("same value, same tarval", (x == y) == (a == b));
	ENSURE("operands", VAL(x) == a && VAL(y) == b);
	REACH("end");
}
void h_in_range(void)
{
	setup(); TVIN("x", x, &M); TVIN("lo", lo, &M); TVIN("hi", hi, &M);
	bv a = VAL(x), l = VAL(lo), h = VAL(hi);
	ASSUME(!nlt(h, l));
	ENSURE("in_range", tarval_in_range(lo, x, hi) == (!nlt(a, l) && !nlt(h, a)));
	REACH("end");
}
void h_pred(void)
{
	setup(); TVIN("x", x, &M);
	bv a = VAL(x), l = bvlow(a, BITS);
	ENSURE("is_negative", (tarval_is_negative(x) != 0) == (SGN && bvneg(a)));
	ENSURE("is_null", (tarval_is_null(x) != 0) == (l == 0));
	ENSURE("is_one", (tarval_is_one(x) != 0) == (l == 1));
	ENSURE("is_all_one", (tarval_is_all_one(x) != 0) == (l == bvlow((bv)-1, BITS)));
	ENSURE("is_constant", tarval_is_constant(x));
	unsigned pc = 0;
	for (unsigned i = 0; i < (BITS + 7) / 8; ++i)
		pc += popcount((uint8_t)(l >> (8 * i))); /* contract of popcount(): C15 */
	ENSURE("popcount", get_tarval_popcount(x) == (int)pc);
	int lo = get_tarval_lowest_bit(x), hi = get_tarval_highest_bit(x);
	if (l == 0) {
		ENSURE("lowest_bit.none", lo == -1);
		ENSURE("highest_bit.none", hi == -1);
	} else {
		ENSURE("lowest_bit", lo >= 0 && lo < BITS && bvlow(l, lo + 1) == (bv)1 << lo);
		ENSURE("highest_bit", hi >= 0 && hi < BITS && (bv)(l >> hi) == 1);
	}
	unsigned mag = get_tarval_magnitude(x);
	ENSURE("magnitude", mag >= 1 && mag <= BITS + 1 && bvsext(l, mag <= BITS ? mag : BITS) == bvsext(l, BITS));
	if (mag > 1 && mag <= BITS)
		ENSURE("magnitude minimal", bvsext(l, mag - 1) != bvsext(l, BITS));
	IN_RANGE(unsigned, bit, 0u, BITS - 1u);
	ENSURE("get_bit", (tarval_get_bit(x, bit) != 0) == (bvbit(l, bit) != 0));
	IN_RANGE(unsigned, byte, 0u, 0xffffu);
	ENSURE("sub_bits", get_tarval_sub_bits(x, byte) == (byte < (BITS + 7) / 8 ? (uint8_t)(l >> (8 * byte)) : 0));
	ENSURE("operands", VAL(x) == a);
	REACH("end");
}
void h_extremes(void)
{
	setup();
	bv half = (bv)1 << (BITS - 1), full = (bv)((half << 1) - 1);
	ENSURE("null", VAL(M.null) == 0 && M.null->mode == &M);
	ENSURE("one", VAL(M.one) == bvwrap(1) && M.one->mode == &M);
	ENSURE("all_one", VAL(M.all_one) == bvwrap(full) && M.all_one->mode == &M);
	ENSURE("min", VAL(M.min) == (SGN ? (bv)-half : (bv)0) && M.min->mode == &M);
	ENSURE("max", VAL(M.max) == (SGN ? (bv)(half - 1) : full) && M.max->mode == &M);
	ENSURE("infinity", M.infinity == tarval_bad);
	TVIN("x", x, &M);
	bv a = VAL(x);
	ENSURE("min is minimal", !nlt(a, VAL(M.min)));
	ENSURE("max is maximal", !nlt(VAL(M.max), a));
	REACH("end");
}
/* --- C04: conversions --- */
#ifndef DBITS
#define DBITS 64
#define DSGN 0
#endif
void h_convert(void)
{
	setup(); make_mode(&N, DBITS, DSGN, 0); TVIN("x", x, &M); IN(bool, wrap); wrap_on_overflow = wrap;
	bv a = VAL(x);
	bv want = DSGN ? bvsext(a, DBITS) : bvlow(a, DBITS);
	ir_tarval *r = tarval_convert_to(x, &N);
	if (!wrap && a != want)
		ENSURE("convert overflow", r == tarval_bad);
	else {
		ENSURE("convert mode", r->mode == &N);
		ENSURE("convert", VAL(r) == want);
	}
	ENSURE("convert to own mode", tarval_convert_to(x, &M) == x);
	ENSURE("operands", VAL(x) == a);
	REACH("end");
}
void h_images(void)
{
	setup(); make_mode(&N, BITS, !SGN, 0);
	TVIN("x", x, &M);
	bv a = VAL(x);
	enum { LEN = (BITS + 7) / 8 };
	unsigned char *buf = malloc(LEN);
	ASSUME(buf);
	tarval_to_bytes(buf, x);
	for (unsigned i = 0; i < BITS / 8; ++i)
		ENSURE("to_bytes", buf[i] == (uint8_t)(a >> (8 * i)));
	ENSURE("from_bytes of to_bytes", new_tarval_from_bytes(buf, &M) == x);
	for (unsigned i = 0; i < LEN; ++i) buf[i] = VF_IN("b", i, uint8_t);
	bv v = 0;
	for (int i = LEN - 1; i >= 0; --i) v = (bv)(v << 8) | buf[i];
	check(new_tarval_from_bytes(buf, &M), v, 0, 1);
	free(buf);
	ir_tarval *c = tarval_bitcast(x, &N);
	ENSURE("bitcast", c->mode == &N && bvlow(VAL(c), BITS) == bvlow(a, BITS) && tv_wf(c));
	ENSURE("bitcast own mode", tarval_bitcast(x, &M) == x);
	ENSURE("operands", VAL(x) == a);
	REACH("end");
}
void h_host(void)
{
	setup();
	IN(int64_t, v);
	ir_tarval *x = new_tarval_from_long(v, &M);
	check(x, wide(v), 0, 1);
	ENSURE("is_long", tarval_is_long(x));
	TVIN("y", y, &M);
	bv a = VAL(y);
	/* an integer of at most 64 bits always is one, read back through its low 64 bits */
	ENSURE("is_long", tarval_is_long(y) && tarval_is_uint64(y));
	ENSURE("get_long", (uint64_t)get_tarval_long(y) == (uint64_t)a);
	ENSURE("get_uint64", get_tarval_uint64(y) == (uint64_t)a);
	ENSURE("from_long of get_long", new_tarval_from_long(get_tarval_long(y), &M) == y);
	ENSURE("operands", VAL(y) == a);
	REACH("end");
}
#ifdef VF_ENTRY
#endif
