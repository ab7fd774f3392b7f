/* Contracts of sc_mul and sc_divmod. */
#include "vf.h"
#include "tv/strcalc.c"
#ifndef NB
#define NB 34
#endif
#include "scspec.h"
static bv mag(bv a) { return bvneg(a) ? (bv)-a : a; }
#ifndef XD
#define XD 4
#endif
#ifndef YD
#define YD 1
#endif
#ifndef YJ
#define YJ 0
#endif
#ifndef XJ
#define XJ 0
#endif
/* XD arbitrary digits at position XJ times YD arbitrary digits at YJ, either sign */
void h_mul(void)
{
	sc_config();
	uint8_t A[NB], B[NB];
	for (int i = 0; i < NB; ++i) { A[i] = i >= XJ && i < XJ + XD ? VF_IN("x", i, uint8_t) : 0; B[i] = i >= YJ && i < YJ + YD ? VF_IN("y", i, uint8_t) : 0; }
	IN(bool, nx); IN(bool, ny);
#ifdef NX
	ASSUME(nx == NX && ny == NY);
#endif
	bv spec = 0;
	for (int j = YJ; j < YJ + YD; ++j)
		for (int i = XJ; i < XJ + XD; ++i)
			spec += (bv)((bv)((unsigned)A[i] * (unsigned)B[j]) << (8 * (i + j)));
	sc_word x[NB], y[NB], r[NB];
	bv a = ld(A), b = ld(B);
#ifdef NX
	if (NX) a = -a;
	if (NY) b = -b;
	if (NX != NY) spec = -spec;
#else
	if (nx) a = -a;
	if (ny) b = -b;
	if (nx != ny) spec = -spec;
#endif
	st(x, a); st(y, b);
	sc_mul(x, y, r);
	ENSURE("mul", ld(r) == spec);
	ENSURE("mul.frame", ld(x) == a && ld(y) == b);
	REACH("end");
}
/* in place, as the number parser uses it */
/* word-level contracts of the helpers sc_divmod calls (established by C01/C03 on strcalc.c) */
#ifdef VF_CBMC
void add_c(const sc_word *x, const sc_word *y, sc_word *r) { st(r, (bv)(ld(x) + ld(y))); }
void neg_c(const sc_word *x, sc_word *r) { st(r, (bv)-ld(x)); }
ir_relation comp_c(const sc_word *x, const sc_word *y)
{ bv a = ld(x), b = ld(y); return a == b ? ir_relation_equal : bvslt(a, b) ? ir_relation_less : ir_relation_greater; }
bool isneg_c(const sc_word *x) { return x[NB - 1] >> 7; }
bool iszero_c(const sc_word *x, unsigned bits) { return bvlow(ld(x), bits) == 0; }
#endif
#ifndef DD
#define DD 2
#endif
#ifndef VD
#define VD 2
#endif
void h_divmod(void)
{
	sc_config();
	sc_word x[NB], y[NB], q[NB], r[NB];
	IN(bool, nx); IN(bool, ny);
	uint8_t A[NB], B[NB];
	for (int i = 0; i < NB; ++i) { A[i] = i < DD ? VF_IN("x", i, uint8_t) : 0; B[i] = i < VD ? VF_IN("y", i, uint8_t) : 0; }
	bv a = ld(A), b = ld(B);
#ifdef CONST
	b = CONST; ASSUME(ld(B) == 0);
#endif
	ASSUME(b != 0);
	bv ma = a, mb = b;
	if (nx) a = -a;
	if (ny) b = -b;
	st(x, a); st(y, b);
	bool c = sc_divmod(x, y, q, r);
	bv mq = nx != ny ? (bv)-ld(q) : ld(q), mr = nx ? (bv)-ld(r) : ld(r);
	ENSURE("divmod", (bv)(mq * mb + mr) == ma);
	ENSURE("remainder", mr < mb);
	ENSURE("quotient", mq <= ma);
	ENSURE("carry", c == (mr != 0));
	ENSURE("frame", ld(x) == a && ld(y) == b);
	REACH("end");
}
/* dividend built from a quotient with digits of at most QM at QD positions from QJ, divisor of VD digits, remainder below it */
#ifndef QD
#define QD 2
#define QJ 0
#define QM 3
#endif
void h_divback(void)
{
	sc_config();
	sc_word x[NB], y[NB], q[NB], r[NB];
	uint8_t Q[NB], B[NB], R[NB];
	for (int i = 0; i < NB; ++i) {
		Q[i] = i >= QJ && i < QJ + QD ? VF_IN("q", i, uint8_t) & QM : 0;
		B[i] = i < VD ? VF_IN("y", i, uint8_t) : 0;
		R[i] = i < VD ? VF_IN("r", i, uint8_t) : 0;
	}
	bv d = ld(B), rem = ld(R), n = rem, quot = ld(Q);
	ASSUME(d != 0 && rem < d);
	for (int j = QJ; j < QJ + QD; ++j)
		for (int k = 0; k < 8; ++k)
			if ((QM >> k & 1) && (Q[j] >> k & 1)) n += (bv)(d << (8 * j + k));
	IN(bool, nx); IN(bool, ny);
	bv a = nx ? (bv)-n : n, b = ny ? (bv)-d : d;
	st(x, a); st(y, b);
	bool c = sc_divmod(x, y, q, r);
	ENSURE("quotient", ld(q) == (nx != ny ? (bv)-quot : quot));
	ENSURE("remainder", ld(r) == (nx ? (bv)-rem : rem));
	ENSURE("carry", c == (rem != 0));
	ENSURE("frame", ld(x) == a && ld(y) == b);
	REACH("end");
}
