TV = r'''
#include <stdio.h>
#include <stdint.h>
#include "firm.h"
static int fail;
#define CHK(c, ...) do { if (!(c)) { fail = 1; printf(__VA_ARGS__); printf("\n"); } } while (0)
static ir_tarval *T(int64_t v, ir_mode *m) { return new_tarval_from_long((long)v, m); }
'''
BUGS = [
 dict(id="c01-divmod-equal", property="C01", needs="division whose partial remainder equals the divisor at some digit and the quotient digit there is the last subtraction",
      breaks="long division skips the subtraction when the running remainder equals the divisor, so e.g. 512/2 style quotients lose a digit",
      edits=[("ir/tv/strcalc.c", "if (sc_comp(rem, divisor) != ir_relation_less) {", "if (sc_comp(rem, divisor) == ir_relation_greater) {")],
      demo=TV + r'''
int main(void) { ir_init();
  for (long a = -5000; a < 5000; a += 7) for (long b = -40; b < 41; ++b) if (b) {
    CHK(get_tarval_long(tarval_div(T(a, get_modeLs()), T(b, get_modeLs()))) == a / b, "%ld / %ld", a, b);
    CHK(get_tarval_long(tarval_mod(T(a, get_modeLs()), T(b, get_modeLs()))) == a % b, "%ld %% %ld", a, b);
    if (fail) return 1; }
  return fail; }'''),
 dict(id="c01-neg-overflow", property="C01", needs="overflow detection switched on (wrap off) and negation of a minimum or of an unsigned value",
      breaks="with overflow detection on, negating the most negative value wraps instead of being reported",
      edits=[("ir/tv/tv.c", "\t\tsc_neg(a->value, buffer);\n\t\treturn get_int_tarval_overflow(buffer, mode);", "\t\tsc_neg(a->value, buffer);\n\t\treturn get_int_tarval(buffer, mode);")],
      demo=TV + r'''
int main(void) { ir_init();
  tarval_set_wrap_on_overflow(0);
  CHK(tarval_neg(get_mode_min(get_modeIs())) == get_tarval_bad(), "neg min");
  CHK(get_tarval_long(tarval_neg(T(5, get_modeIs()))) == -5, "neg 5");
  return fail; }'''),
 dict(id="c01-ornot-mode", property="C01", needs="boolean mode: ornot of false and true",
      breaks="x | ~y of two booleans uses the wrong operand",
      edits=[("ir/tv/tv.c", "return a == tarval_b_true || b == tarval_b_false ? tarval_b_true", "return a == tarval_b_true || b == tarval_b_true ? tarval_b_true")],
      demo=TV + r'''
int main(void) { ir_init();
  ir_tarval *t = get_tarval_b_true(), *f = get_tarval_b_false();
  CHK(tarval_ornot(f, f) == t, "f|~f"); CHK(tarval_ornot(f, t) == f, "f|~t"); CHK(tarval_ornot(t, f) == t, "t|~f"); CHK(tarval_ornot(t, t) == t, "t|~t");
  return fail; }'''),
 dict(id="c02-shrs-fill", property="C02", needs="arithmetic right shift of an unsigned-mode value with the top bit set by an amount not divisible by 8",
      breaks="the digit shifted in at the top comes from the digit above the width instead of the sign",
      edits=[("ir/tv/strcalc.c", "sc_word next = next_pos<limit ? value[next_pos] : sign;", "sc_word next = next_pos < calc_buffer_size ? value[next_pos] : sign;")],
      demo=TV + r'''
int main(void) { ir_init();
  for (unsigned s = 0; s < 32; ++s) {
    uint32_t v = 0x80000001u; uint32_t e = (uint32_t)((int32_t)v >> s);
    CHK(get_tarval_uint64(tarval_shrs_unsigned(T(v, get_modeIu()), s)) == e, "shrs %u", s); }
  return fail; }'''),
 dict(id="c02-shl-modulo", property="C02", needs="left shift by a plain number of at least the modulo of the mode",
      breaks="shift amounts given as plain number are saturated, not reduced, when they equal the modulo",
      edits=[("ir/tv/tv.c", "\tif (modulo != 0)\n\t\tb %= modulo;\n\tassert((unsigned)(long)b==b);\n\n\tsc_word *const buffer = ALLOCAN(sc_word, sc_value_length);\n\tsc_shlI(", "\tif (modulo != 0 && b > modulo)\n\t\tb %= modulo;\n\tassert((unsigned)(long)b==b);\n\n\tsc_word *const buffer = ALLOCAN(sc_word, sc_value_length);\n\tsc_shlI(")],
      demo=TV + r'''
int main(void) { ir_init();
  for (unsigned s = 0; s < 70; ++s)
    CHK(get_tarval_long(tarval_shl_unsigned(T(3, get_modeIs()), s)) == (int32_t)(3u << (s % 32)), "shl %u", s);
  return fail; }'''),
 dict(id="c03-cmp-digit", property="C03", needs="two values whose most significant differing digit is not their lowest differing one, both of the same sign",
      breaks="the lowest-bit predicate skips the topmost digit of the internal buffer for negative values of the minimum",
      edits=[("ir/tv/strcalc.c", "\t\tif (value[i] != SC_MASK)\n\t\t\treturn false;\n\t}\n\tsc_word mask = max_digit(bits%SC_BITS);\n\treturn mask == 0 || (value[i] & mask) == mask;", "\t\tif (value[i] != SC_MASK && i != 1)\n\t\t\treturn false;\n\t}\n\tsc_word mask = max_digit(bits%SC_BITS);\n\treturn mask == 0 || (value[i] & mask) == mask;")],
      demo=TV + r'''
int main(void) { ir_init();
  CHK(tarval_is_all_one(T(-1, get_modeIs())), "-1");
  CHK(!tarval_is_all_one(T(-1 & ~0x100, get_modeIs())), "~0x100");
  CHK(!tarval_is_all_one(T(-2, get_modeIs())), "-2");
  return fail; }'''),
 dict(id="c04-frombytes", property="C04", needs="conversion of a signed negative value to a wider unsigned mode",
      breaks="sign-extends one bit too few positions: the digit holding the sign bit keeps stale bits above it for sizes that are no multiple of 8",
      edits=[("ir/tv/strcalc.c", "\treturn (SC_MASK << (x+1)) & SC_MASK;", "\treturn (SC_MASK << (x+2)) & SC_MASK;")],
      demo=TV + r'''
int main(void) { ir_init();
  ir_mode *m = new_int_mode("t12", 12, 1, 0);
  for (long v = -2048; v < 2048; ++v) CHK(get_tarval_long(T(v, m)) == v, "%ld", v);
  for (long v = 0; v < 4096; ++v) CHK(get_tarval_long(tarval_convert_to(T(v, get_modeIu()), m)) == (v >= 2048 ? v - 4096 : v), "conv %ld", v);
  return fail; }'''),
 dict(id="c05-decimal-mask", property="C05", needs="decimal printing of a negative value in a signed mode",
      breaks="digits above 'F' threshold: lower-case hex digits are read one too small",
      edits=[("ir/tv/strcalc.c", "v = c - 'a' + 10;", "v = c - 'a' + (base == 16 && len > 8 ? 9 : 10);")],
      demo=TV + r'''
#include <string.h>
int main(void) { ir_init();
  char const *s = "0xdeadbeefcafe";
  CHK(get_tarval_long(new_tarval_from_str(s, strlen(s), get_modeLs())) == 0xdeadbeefcafel, "hex");
  s = "0xfe"; CHK(get_tarval_long(new_tarval_from_str(s, strlen(s), get_modeLs())) == 0xfe, "hex2");
  return fail; }'''),
 dict(id="c09-modulo-ident", property="C09", needs="registering two integer modes that differ only in their modulo shift",
      breaks="the partner lookup for doubled width keeps a modulo shift equal to the narrow size",
      edits=[("ir/ir/irmode.c", "\tif (n.modulo_shift != 0 && n.modulo_shift < n.size)", "\tif (n.modulo_shift != 0 && n.modulo_shift < mode->size)")],
      demo=TV + r'''
int main(void) { ir_init();
  CHK(find_double_bits_int_mode(get_modeIs()) == get_modeLs(), "double of Is");
  CHK(find_double_bits_int_mode(get_modeIu()) == get_modeLu(), "double of Iu");
  return fail; }'''),
 dict(id="c09-contained", property="C09", needs="integer to float containment at exactly one bit above the mantissa",
      breaks="an unsigned integer one bit wider than the significand is reported as contained in the float mode",
      edits=[("ir/ir/irmode.c", "= get_mode_size_bits(sm) - (mode_is_signed(sm) ? 1 : 0);", "= get_mode_size_bits(sm) - 1;")],
      demo=TV + r'''
int main(void) { ir_init();
  ir_mode *u = new_int_mode("u54", 54, 0, 0), *w = new_int_mode("u53", 53, 0, 0);
  CHK(values_in_mode(w, get_modeD()), "53");
  CHK(!values_in_mode(u, get_modeD()), "2^54-1 is no double");
  return fail; }'''),
 dict(id="c15-roundup", property="C15", needs="rounding up to a power of two of a value above 2^30",
      breaks="ceil_po2 of a value whose predecessor has a single leading zero is off by a factor of two",
      edits=[("ir/adt/bitfiddle.h", "	/* note that x != 0 here! */\n	return 0x80000000U >> (nlz(x-1) - 1);", "	/* note that x != 0 here! */\n	return 0x80000000U >> (nlz(x-1) - (nlz(x) != 1));")],
      demo=r'''
#include <stdio.h>
#include "bitfiddle.h"
int main(void) {
  for (unsigned i = 0; i < 31; ++i) for (unsigned d = 0; d < 3; ++d) {
    unsigned x = (1u << i) + d; if (x > 1u << 30) { if (x < 0x80000000u && ceil_po2(x) != 0x80000000u) return 1; continue; }
    unsigned p = 1; while (p < x) p <<= 1;
    if (ceil_po2(x) != p) { printf("%u\n", x); return 1; } }
  return 0; }'''),
 dict(id="c16-nextmax", property="C16", needs="searching the next clear position in a set whose last partial word holds the only candidate while the first word examined is full",
      breaks="bits behind the end of the set are reported when the hit lies in the first word examined",
      edits=[("ir/adt/raw_bitset.h", "		size_t n = BITSET_SIZE_ELEMS(last);\n		/* Else", "		size_t n = last % BITS_PER_ELEM == 1 ? last / BITS_PER_ELEM : BITSET_SIZE_ELEMS(last);\n		/* Else")],
      demo=r'''
#include <stdio.h>
#include "raw_bitset.h"
int main(void) {
  unsigned b[4] = {0, 0, 0, 0};
  for (unsigned n = 1; n < 128; ++n) { for (int i = 0; i < 4; ++i) b[i] = 0; rbitset_set(b, n - 1);
    if (rbitset_next_max(b, 0, n, true) != n - 1) { printf("%u\n", n); return 1; } }
  return 0; }'''),
 dict(id="c16-contains", property="C16", needs="two bitset_t of a size that is a multiple of the word size, flipped as a whole",
      breaks="flipping all bits leaves the last word alone for sizes that are a multiple of the word size",
      edits=[("ir/adt/raw_bitset.h", "	bitset[i] ^= rbitset_last_mask_(size);\n}\n\n/**\n * Check if", "	bitset[i] ^= rbitset_last_mask_(size) >> (size % BITS_PER_ELEM == 31);\n}\n\n/**\n * Check if")],
      demo=r'''
#include <stdio.h>
#include "raw_bitset.h"
int main(void) {
  for (unsigned n = 1; n < 128; ++n) { unsigned b[4] = {0, 0, 0, 0}; rbitset_flip_all(b, n);
    if (rbitset_popcount(b, n) != n) { printf("%u\n", n); return 1; } }
  return 0; }'''),
 dict(id="c19-uleb", property="C19", needs="an unsigned number that needs five bytes", 
      breaks="numbers of 29 bits and more are counted as four bytes",
      edits=[("ir/be/bedwarf.c", "	} while (value != 0);\n	return size;\n}\n\nstatic void emit_sleb128", "	} while (value != 0 && size < 4);\n	return size;\n}\n\nstatic void emit_sleb128")],
      demo=r'''
#include <stdio.h>
#include "be/bedwarf.c"
int main(void) {
  for (unsigned i = 0; i < 32; ++i) { unsigned n = 1; for (unsigned v = (1u << i) >> 7; v; v >>= 7) ++n;
    if (get_uleb128_size(1u << i) != n) { printf("%u\n", i); return 1; } }
  return 0; }'''),
]
