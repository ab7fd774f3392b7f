/* Mathematical view of a strcalc number: a NB*8 bit two's complement number. */
#ifndef SCSPEC_H
#define SCSPEC_H
#ifndef NB
#define NB 34          /* bytes per number: the library's configuration */
#endif
#ifdef VF_CBMC
typedef unsigned __CPROVER_bitvector[NB * 8] bv;
#else
typedef unsigned _BitInt(NB * 8) bv;
#endif
static bv ld(const sc_word *p)
{
	bv r = 0;
	for (int i = NB - 1; i >= 0; --i)
		r = (bv)(r << 8) | (bv)p[i];
	return r;
}
static void st(sc_word *p, bv v)
{
	for (int i = 0; i < NB; ++i)
		p[i] = (sc_word)(v >> (8 * i));
}
static bool bvneg(bv v) { return (v >> (NB * 8 - 1)) != 0; }
static bool bvslt(bv a, bv b) { return bvneg(a) != bvneg(b) ? bvneg(a) : a < b; }
static bv bvbit(bv v, unsigned n) { return (v >> n) & 1; }
/* low n bits of v, zero respectively sign extended */
static bv bvlow(bv v, unsigned n) { return n >= NB * 8 ? v : (bv)(v & (((bv)1 << n) - 1)); }
static bv bvsext(bv v, unsigned n) { bv l = bvlow(v, n); return n < NB * 8 && bvbit(v, n - 1) ? (bv)(l | ~(((bv)1 << n) - 1)) : l; }
static void sc_config(void)
{
	bit_pattern_size = NB * 4;
	calc_buffer_size = NB;
	max_value_size   = NB / 2;
}
#define INBUF(name, s) sc_word s[NB]; for (int i_ = 0; i_ < NB; ++i_) s[i_] = VF_IN(name, i_, uint8_t)
#endif
