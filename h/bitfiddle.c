/* C15: contracts of the helpers in adt/bitfiddle.h, stated against bit-by-bit
 * definitions; every input is an unconstrained machine word. */
#include "vf.h"
#include "bitfiddle.h"

static unsigned spec_popcount(uint32_t x)
{
	unsigned n = 0;
	for (unsigned i = 0; i < 32; ++i)
		n += (x >> i) & 1;
	return n;
}

void h_popcount(void)
{
	IN(uint32_t, x);
	ENSURE("popcount", popcount(x) == spec_popcount(x));
	REACH("popcount");
}

void h_nlz(void)
{
	IN(uint32_t, x);
	unsigned r = nlz(x);
	ENSURE("nlz.range", r <= 32);
	if (x == 0) {
		ENSURE("nlz.zero", r == 32);
		REACH("nlz.zero");
	} else {
		ENSURE("nlz.bit", r < 32 && ((x >> (31 - r)) & 1) == 1);
		ENSURE("nlz.above", (uint64_t)x >> (32 - r) == 0);
		REACH("nlz.nonzero");
	}
}

void h_ntz(void)
{
	IN(uint32_t, x);
	unsigned r = ntz(x);
	ENSURE("ntz.range", r <= 32);
	if (x == 0) {
		ENSURE("ntz.zero", r == 32);
		REACH("ntz.zero");
	} else {
		ENSURE("ntz.bit", r < 32 && ((x >> r) & 1) == 1);
		ENSURE("ntz.below", r < 32 && (x & ((1u << r) - 1)) == 0);
		REACH("ntz.nonzero");
	}
}

void h_log2(void)
{
	IN(uint32_t, x);
	ASSUME(x != 0);
	uint32_t f = log2_floor(x);
	ENSURE("log2_floor", f < 32 && (1ull << f) <= x && (1ull << (f + 1)) > x);
	uint32_t c = log2_ceil(x);
	ENSURE("log2_ceil", c <= 32 && (1ull << c) >= x && (c == 0 || (1ull << (c - 1)) < x));
	REACH("log2");
}

void h_po2(void)
{
	IN(uint32_t, x);
	uint32_t f = floor_po2(x);
	if (x == 0) {
		ENSURE("floor_po2.zero", f == 0);
	} else {
		ENSURE("floor_po2", spec_popcount(f) == 1 && f <= x && x - f < f);
	}
	bool p = is_po2_or_zero(x);
	ENSURE("is_po2_or_zero", p == (spec_popcount(x) <= 1));
	REACH("floor_po2");
	if (x < (1u << 31)) {
		uint32_t c = ceil_po2(x);
		if (x == 0) {
			ENSURE("ceil_po2.zero", c == 0);
		} else {
			ENSURE("ceil_po2", spec_popcount(c) == 1 && c >= x && (c == 1 || c / 2 < x));
		}
		REACH("ceil_po2");
	}
}

void h_round_up2(void)
{
	IN(uint32_t, x);
	IN_RANGE(uint32_t, s, 0u, 31u);
	uint32_t p = 1u << s;
	unsigned r = round_up2(x, p);
	uint64_t want = (((uint64_t)x + p - 1) >> s) << s;
	ENSURE("round_up2", r == (uint32_t)want);
	REACH("round_up2");
}
