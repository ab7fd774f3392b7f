/* LEB128 length functions of the DWARF emitter against an encoder written from the DWARF definition. */
#include "vf.h"
#include "be/bedwarf.c"
static unsigned uleb(uint64_t v, uint8_t *out)
{
	unsigned n = 0;
	for (;;) {
		uint8_t b = v & 0x7f; v >>= 7;
		if (v != 0) out[n++] = b | 0x80; else { out[n++] = b; return n; }
	}
}
static unsigned sleb(int64_t v, uint8_t *out)
{
	unsigned n = 0;
	for (;;) {
		uint8_t b = v & 0x7f; v >>= 7;
		if ((v == 0 && !(b & 0x40)) || (v == -1 && (b & 0x40))) { out[n++] = b; return n; }
		out[n++] = b | 0x80;
	}
}
void h_uleb(void) { IN(unsigned, v); uint8_t b[12]; ENSURE("uleb128 size", get_uleb128_size(v) == uleb(v, b)); REACH("end"); }
void h_sleb(void) { IN(long, v); uint8_t b[12]; ENSURE("sleb128 size", get_sleb128_size(v) == sleb(v, b)); REACH("end"); }
