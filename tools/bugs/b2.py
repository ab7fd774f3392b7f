exec(open('/verif/tools/bugs/b1.py').read().split("BUGS = [")[0])
BUGS = [
 dict(id="c02-shr-ext", property="C02", needs="logical right shift by a plain number of a negative value in a signed mode",
      breaks="sign digits above the width are shifted into a negative value",
      edits=[("ir/tv/tv.c", "\tsc_zero_extend(temp, get_mode_size_bits(a->mode));\n\tsc_shrI(temp, (long)b, temp);", "\tif (b % 8 != 0)\n\t\tsc_zero_extend(temp, get_mode_size_bits(a->mode));\n\tsc_shrI(temp, (long)b, temp);")],
      demo=TV + r'''
int main(void) { ir_init();
  for (unsigned s = 0; s < 32; ++s)
    CHK(get_tarval_long(tarval_shr_unsigned(T(-77, get_modeIs()), s)) == (int32_t)((uint32_t)-77 >> s), "shr %u", s);
  return fail; }'''),
 dict(id="c03-inrange", property="C03", needs="range test of a value equal to the upper bound of a range with different bounds",
      breaks="the upper bound is treated as exclusive",
      edits=[("ir/tv/tv.c", "tarval_cmp(val, max) & ir_relation_less_equal;", "tarval_cmp(val, max) & ir_relation_less;")],
      demo=TV + r'''
int main(void) { ir_init();
  for (long v = -5; v < 9; ++v) CHK(tarval_in_range(T(-2, get_modeIs()), T(v, get_modeIs()), T(6, get_modeIs())) == (v >= -2 && v <= 6), "%ld", v);
  return fail; }'''),
 dict(id="c03-highest", property="C03", needs="highest set bit of a value whose only non-zero byte is the lowest",
      breaks="values below 256 are reported to have no highest bit",
      edits=[("ir/tv/tv.c", "	for (int i = l - 1; i >= 0; --i) {", "	for (int i = l - 1; i > (l > 4 ? 0 : -1); --i) {")],
      demo=TV + r'''
int main(void) { ir_init();
  for (int i = 0; i < 32; ++i) { CHK(get_tarval_highest_bit(T(1l << i, get_modeIu())) == i, "%d", i);
  CHK(get_tarval_highest_bit(T(1l << i, get_modeLu())) == i, "%d", i); }
  return fail; }'''),
 dict(id="c03-cmp7", property="C03", needs="two values that first differ in the seventh byte, by more than 127",
      breaks="comparison of the seventh digit is done as signed difference",
      edits=[("ir/tv/strcalc.c", "	/* the leftmost digit is the most significant, so this returns\n", "	if (counter == 6)\n		return val1[counter] < val2[counter] ? ir_relation_less : val1[counter] - val2[counter] > 127 ? ir_relation_less : ir_relation_greater;\n	/* the leftmost digit is the most significant, so this returns\n")],
      demo=TV + r'''
int main(void) { ir_init();
  CHK(tarval_cmp(T(0x00c0000000000000l, get_modeLs()), T(0x0010000000000000l, get_modeLs())) == ir_relation_greater, "cmp");
  return fail; }'''),
 dict(id="c04-frombytes", property="C04", needs="reading the byte image of a value of a mode whose size is one more than a multiple of 8",
      breaks="the last byte, holding a single bit, is dropped",
      edits=[("ir/tv/tv.c", "		unsigned n_bytes = bits/CHAR_BIT + (bits%CHAR_BIT != 0);\n		sc_word *dest", "		unsigned n_bytes = bits/CHAR_BIT + (bits%CHAR_BIT > 1);\n		sc_word *dest")],
      demo=TV + r'''
int main(void) { ir_init();
  ir_mode *m = new_int_mode("u33", 33, 0, 0);
  for (int i = 0; i < 33; ++i) { unsigned char b[8] = {0}; tarval_to_bytes(b, T(1l << i, m)); CHK(new_tarval_from_bytes(b, m) == T(1l << i, m), "%d", i); }
  return fail; }'''),
 dict(id="c04-convref", property="C04", needs="building a value from a host integer below -2^62",
      breaks="digits of a negative host integer above the seventh are lost when they are the only ones",
      edits=[("ir/tv/strcalc.c", "	while ((value != 0) && (pos < buffer + calc_buffer_size)) {", "	while ((value > 0 || pos == buffer) && (pos < buffer + 7)) {")],
      demo=TV + r'''
int main(void) { ir_init();
  for (int i = 0; i < 63; ++i) { CHK(get_tarval_long(T(1l << i, get_modeLs())) == 1l << i, "%d", i); CHK(get_tarval_long(T(-(1l << i), get_modeLs())) == -(1l << i), "-%d", i); }
  return fail; }'''),
]
