From d67f03cae74ba7ff7552efe2d9d037e321dcf1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:13 +0000
Subject: [PATCH 01/23] fix: do not access the word behind the bitset in
 rbitset_set_range

If the end of the range is a multiple of the word size, the element behind
the range (possibly behind the allocated bitset) was read and written.
---
 ir/adt/raw_bitset.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ir/adt/raw_bitset.h b/ir/adt/raw_bitset.h
index b8d51af..63513d4 100644
--- a/ir/adt/raw_bitset.h
+++ b/ir/adt/raw_bitset.h
@@ -465,7 +465,9 @@ static inline void rbitset_set_range(unsigned *bitset, size_t from,
 			bitset[from_pos] |= from_unit_mask & to_unit_mask;
 		} else {
 			bitset[from_pos] |= from_unit_mask;
-			bitset[to_pos]   |= to_unit_mask;
+			/* to_pos may be just behind the last element if to_bit == 0 */
+			if (to_bit != 0)
+				bitset[to_pos] |= to_unit_mask;
 			for (size_t i = from_pos + 1; i < to_pos; ++i)
 				bitset[i] = ~0u;
 		}
@@ -475,7 +477,8 @@ static inline void rbitset_set_range(unsigned *bitset, size_t from,
 			bitset[from_pos] &= ~(from_unit_mask & to_unit_mask);
 		} else {
 			bitset[from_pos] &= ~from_unit_mask;
-			bitset[to_pos]   &= ~to_unit_mask;
+			if (to_bit != 0)
+				bitset[to_pos] &= ~to_unit_mask;
 			for (size_t i = from_pos + 1; i < to_pos; ++i)
 				bitset[i] = 0;
 		}
-- 
2.43.0


From d4d2f8b0cdfc5c076bb49390999f80b0e3f93056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:13 +0000
Subject: [PATCH 02/23] fix: only borrow in rbitset_minus1 if the element is
 zero

An element with just the topmost bit set (0x80000000) does not need a borrow
from the next element.
---
 ir/adt/raw_bitset.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/adt/raw_bitset.h b/ir/adt/raw_bitset.h
index 63513d4..b0929b3 100644
--- a/ir/adt/raw_bitset.h
+++ b/ir/adt/raw_bitset.h
@@ -548,7 +548,8 @@ static inline void rbitset_minus1(unsigned *bitset, size_t size)
 		unsigned val_minus1 = val - 1;
 		bitset[i] = val_minus1 & mask;
 
-		if (((val >> (BITS_PER_ELEM-1)) ^ (val_minus1 >> (BITS_PER_ELEM-1))) == 0)
+		/* continue only if we have to borrow from the next element */
+		if (val != 0)
 			break;
 	}
 }
-- 
2.43.0


From 2f5ee7316cbe8617f609b560e27de62d0ff0afe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:36 +0000
Subject: [PATCH 03/23] fix: do not read the word behind the bitset in
 rbitset_prev

bitset_foreach_rev() starts with pos == size, which is just behind the last
element if the size is a multiple of the word size.
---
 ir/adt/raw_bitset.h | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/ir/adt/raw_bitset.h b/ir/adt/raw_bitset.h
index b0929b3..549378b 100644
--- a/ir/adt/raw_bitset.h
+++ b/ir/adt/raw_bitset.h
@@ -339,29 +339,31 @@ static inline size_t rbitset_prev(const unsigned *bitset, size_t pos,
 	size_t elem_pos = pos / BITS_PER_ELEM;
 	size_t bit_pos  = pos % BITS_PER_ELEM;
 
-	unsigned elem = bitset[elem_pos];
 	unsigned mask = set ? 0 : ~0u;
 
-	/*
-	 * Mask out the bits larger than pos in the current unit.
-	 * We are only interested in bits set lower than pos.
-	 */
-	unsigned in_elem_mask = ~((1u << bit_pos) - 1u);
+	/* No bit of the current unit matters if pos is its first bit, the unit
+	 * may even be behind the last one. */
+	if (bit_pos != 0) {
+		/*
+		 * Mask out the bits larger than pos in the current unit.
+		 * We are only interested in bits set lower than pos.
+		 */
+		unsigned in_elem_mask = ~((1u << bit_pos) - 1u);
 
-	elem ^= mask;
-	unsigned p = nlz(elem & ~in_elem_mask);
+		unsigned elem = bitset[elem_pos] ^ mask;
+		unsigned p    = nlz(elem & ~in_elem_mask);
 
-	/* If there is a bit set in the current elem, exit. */
-	if (p < BITS_PER_ELEM) {
-	  return (1+elem_pos) * BITS_PER_ELEM - p - 1;
+		/* If there is a bit set in the current elem, exit. */
+		if (p < BITS_PER_ELEM) {
+			return (1+elem_pos) * BITS_PER_ELEM - p - 1;
+		}
 	}
 
 	/* Else search for set bits in the previous units. */
 	while (elem_pos > 0) {
 		elem_pos--;
-		elem = bitset[elem_pos] ^ mask;
-
-		p = nlz(elem);
+		unsigned elem = bitset[elem_pos] ^ mask;
+		unsigned p    = nlz(elem);
 		if (p < BITS_PER_ELEM) {
 		  return (1+elem_pos) * BITS_PER_ELEM - p - 1;
 		}
-- 
2.43.0


From 41a3fef4abe53cf2352ac65633a615ab4bd9c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:35 +0000
Subject: [PATCH 04/23] fix: mask the last partial byte in sc_sub_bits, not the
 one before it

---
 ir/tv/strcalc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/tv/strcalc.c b/ir/tv/strcalc.c
index 4e13d24..c28d154 100644
--- a/ir/tv/strcalc.c
+++ b/ir/tv/strcalc.c
@@ -571,7 +571,7 @@ unsigned char sc_sub_bits(const sc_word *value, unsigned len, unsigned byte_ofs)
 	assert(SC_BITS == CHAR_BIT);
 	sc_word val = value[byte_ofs];
 	// Mask out if we are at the end
-	if (byte_ofs == (len/SC_BITS)-1) {
+	if (byte_ofs == len/SC_BITS) {
 		unsigned bit = len % SC_BITS;
 		if (bit != 0)
 			val &= max_digit(bit);
-- 
2.43.0


From 0940b3a83bfe1a001809a6b0d3482833017f5124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:35 +0000
Subject: [PATCH 05/23] fix: do not clear memory behind the buffer in
 sc_val_from_bytes

---
 ir/tv/strcalc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/tv/strcalc.c b/ir/tv/strcalc.c
index c28d154..2901b1f 100644
--- a/ir/tv/strcalc.c
+++ b/ir/tv/strcalc.c
@@ -603,7 +603,7 @@ void sc_val_from_bytes(unsigned char const *const bytes, size_t n_bytes,
 	sc_word *p = buffer;
 	assert(SC_BITS == CHAR_BIT);
 	memcpy(p, bytes, n_bytes);
-	memset(p+n_bytes, 0, buffer+calc_buffer_size-p);
+	memset(p+n_bytes, 0, calc_buffer_size-n_bytes);
 }
 
 void sc_val_to_bytes(const sc_word *buffer, unsigned char *const dest,
-- 
2.43.0


From 1201d9c55d67c2dc417d1a91957b5f438ad74164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 06/23] fix: do not identify float modes with different formats

---
 ir/ir/irmode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir/ir/irmode.c b/ir/ir/irmode.c
index 8f315ec..f5aa9dd 100644
--- a/ir/ir/irmode.c
+++ b/ir/ir/irmode.c
@@ -38,7 +38,10 @@ static bool modes_are_equal(const ir_mode *m, const ir_mode *n)
 	    && m->size              == n->size
 	    && m->sign              == n->sign
 	    && m->modulo_shift      == n->modulo_shift
-	    && m->int_conv_overflow == n->int_conv_overflow;
+	    && m->int_conv_overflow == n->int_conv_overflow
+	    && m->float_desc.exponent_size == n->float_desc.exponent_size
+	    && m->float_desc.mantissa_size == n->float_desc.mantissa_size
+	    && m->float_desc.explicit_one  == n->float_desc.explicit_one;
 }
 
 /**
-- 
2.43.0


From cd0199fc3e561f36a46f052a0a6a72f5acc63745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 07/23] fix: compare float formats, not sizes, for value
 containment of modes

---
 ir/ir/irmode.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ir/ir/irmode.c b/ir/ir/irmode.c
index f5aa9dd..48c08b2 100644
--- a/ir/ir/irmode.c
+++ b/ir/ir/irmode.c
@@ -329,6 +329,18 @@ float_int_conversion_overflow_style_t get_mode_float_int_overflow(
 	return mode->int_conv_overflow;
 }
 
+/**
+ * Returns true if every value of float format @p sm is a value of @p lm.
+ */
+static bool float_format_contained(const ir_mode *sm, const ir_mode *lm)
+{
+	const float_descriptor_t *sd = &sm->float_desc;
+	const float_descriptor_t *ld = &lm->float_desc;
+	return sd->exponent_size <= ld->exponent_size
+	    && sd->mantissa_size - sd->explicit_one
+	       <= ld->mantissa_size - ld->explicit_one;
+}
+
 int smaller_mode(const ir_mode *sm, const ir_mode *lm)
 {
 	assert(sm != NULL);
@@ -372,7 +384,7 @@ int smaller_mode(const ir_mode *sm, const ir_mode *lm)
 	case irms_float_number:
 		return get_mode_arithmetic(sm) == get_mode_arithmetic(lm)
 		    && mode_is_float(lm)
-		    && get_mode_size_bits(lm) >= get_mode_size_bits(sm);
+		    && float_format_contained(sm, lm);
 
 	case irms_auxiliary:
 	case irms_data:
@@ -401,7 +413,7 @@ int values_in_mode(const ir_mode *sm, const ir_mode *lm)
 	case irma_x86_extended_float:
 	case irma_ieee754:
 		if (sarith == irma_ieee754 || sarith == irma_x86_extended_float) {
-			return get_mode_size_bits(sm) <= get_mode_size_bits(lm);
+			return float_format_contained(sm, lm);
 		} else if (sarith == irma_twos_complement) {
 			unsigned int_mantissa
 				= get_mode_size_bits(sm) - (mode_is_signed(sm) ? 1 : 0);
-- 
2.43.0


From 1c9a88b30785d407f7fdd502eaca9f3dd12f4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 08/23] fix: an explicit leading one does not add precision to
 a float mode

---
 ir/ir/irmode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/ir/irmode.c b/ir/ir/irmode.c
index 48c08b2..2d46a39 100644
--- a/ir/ir/irmode.c
+++ b/ir/ir/irmode.c
@@ -417,7 +417,7 @@ int values_in_mode(const ir_mode *sm, const ir_mode *lm)
 		} else if (sarith == irma_twos_complement) {
 			unsigned int_mantissa
 				= get_mode_size_bits(sm) - (mode_is_signed(sm) ? 1 : 0);
-			unsigned float_mantissa = get_mode_mantissa_size(lm) + 1;
+			unsigned float_mantissa = get_mode_mantissa_size(lm) + !lm->float_desc.explicit_one;
 			return int_mantissa <= float_mantissa;
 		}
 		break;
-- 
2.43.0


From eb007b49cf618add6c166bf596c2c5d981ec6de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 09/23] fix: signed LEB128 size did not account for the sign
 bit of the last byte

---
 ir/be/bedwarf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ir/be/bedwarf.c b/ir/be/bedwarf.c
index f189258..a7f8bfa 100644
--- a/ir/be/bedwarf.c
+++ b/ir/be/bedwarf.c
@@ -151,11 +151,12 @@ static void emit_sleb128(long value)
 
 static unsigned get_sleb128_size(long value)
 {
-	unsigned size = 0;
-	do {
+	/* the last byte must also carry the sign bit */
+	unsigned size = 1;
+	while (value < -64 || value > 63) {
 		value >>= 7;
 		size += 1;
-	} while (value != 0 && value != -1);
+	}
 	return size;
 }
 
-- 
2.43.0


From e1b45e7582f1d4aa430d76ddbe17bfa6feaee69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:00 +0000
Subject: [PATCH 10/23] fix: negate the dividend when a division by -1 is
 strength-reduced

arch_dep_replace_div_by_const() treated -1 like 1 and returned the dividend
itself.
---
 ir/ir/irarch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ir/ir/irarch.c b/ir/ir/irarch.c
index 6e4fe64..845e70f 100644
--- a/ir/ir/irarch.c
+++ b/ir/ir/irarch.c
@@ -965,8 +965,8 @@ ir_node *arch_dep_replace_div_by_const(ir_node *irn)
 		/* other constant */
 		if (allow_Mulh(mode))
 			res = replace_div_by_mulh(irn, tv);
-	} else { /* k == 0  i.e. division by 1 */
-		res = left;
+	} else { /* k == 0  i.e. division by 1 or -1 */
+		res = n_flag ? new_rd_Minus(dbg, block, left) : left;
 	}
 
 	return res;
-- 
2.43.0


From e8d4b5656d210759426ce55b9be838ffd5493d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 11/23] fix: unsigned division by a constant in modes other
 than 32 bit

The incremented dividend was projected in mode_Iu whatever the mode of the
division, and the Mulh result was shifted by the width once more, which only
had no effect because a 32-bit shift count is reduced modulo 32.
---
 ir/ir/irarch.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ir/ir/irarch.c b/ir/ir/irarch.c
index 845e70f..c816d13 100644
--- a/ir/ir/irarch.c
+++ b/ir/ir/irarch.c
@@ -865,14 +865,13 @@ static ir_node *replace_div_by_mulh(ir_node *div, ir_tarval *tv)
 			ir_node *increment = new_rd_Builtin(dbg, block, no_mem, 1, in,
 			                                    ir_bk_saturating_increment, utype);
 
-			n = new_r_Proj(increment, mode_Iu, pn_Builtin_max + 1);
+			n = new_r_Proj(increment, mode, pn_Builtin_max + 1);
 		}
 
 		/* generate the Mulh instruction */
 		ir_node *c = new_r_Const(irg, mafo.multiplier);
 		ir_node *q = new_rd_Mulh(dbg, block, n, c);
-		c = new_r_Const_long(irg, mode_Iu, get_mode_size_bits(get_tarval_mode(tv)));
-		res = new_rd_Shr(dbg, block, q, c);
+		res = q;
 		if (mafo.post_shift > 0) {
 			c = new_r_Const_long(irg, mode_Iu, mafo.post_shift);
 			res = new_rd_Shr(dbg, block, res, c);
-- 
2.43.0


From 1e592839c195a9bc6aa0064b2092b5e45c42e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:07 +0000
Subject: [PATCH 12/23] fix: do not fold x >> x to zero if the shift amount is
 taken modulo

---
 ir/opt/iropt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 80938f0..b88d991 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -534,7 +534,10 @@ static ir_tarval *computed_value_Shr(const ir_node *n)
 
 	if (ta != tarval_unknown && tb != tarval_unknown)
 		return tarval_shr(ta, tb);
-	if (a == b || is_oversize_shift(n))
+	/* x >> x == 0 only holds if the shift amount is not reduced. */
+	if (a == b && get_mode_modulo_shift(get_irn_mode(n)) == 0)
+		return get_mode_null(get_irn_mode(n));
+	if (is_oversize_shift(n))
 		return get_mode_null(get_irn_mode(n));
 	return tarval_unknown;
 }
-- 
2.43.0


From 75bb5159d76871d19f99ed9b37fd22042389333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:07 +0000
Subject: [PATCH 13/23] fix: do not apply the shift-compare rule to oversized
 arithmetic shifts

---
 ir/opt/iropt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index b88d991..4bd8c8c 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -5723,7 +5723,7 @@ reduced_tv:
 				 *                             TRUE                        else
 				 */
 				c1 = get_Shrs_right(left);
-				if (is_Const(c1)) {
+				if (is_Const(c1) && !is_oversize_shift(left)) {
 					ir_tarval *tv1     = get_Const_tarval(c1);
 					ir_tarval *all_one = get_mode_all_one(mode);
 					ir_tarval *cond    = new_tarval_from_long(get_mode_size_bits(mode) - 1, get_tarval_mode(tv1));
-- 
2.43.0


From e5599744b2dc491cb6ab397f9c1fe96d1f52f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:07 +0000
Subject: [PATCH 14/23] fix: a select on an unsigned compare with zero is no
 absolute value

---
 ir/opt/iropt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 4bd8c8c..f00457c 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -6537,6 +6537,9 @@ int ir_mux_is_abs(const ir_node *sel, const ir_node *mux_false,
 		return 0;
 
 	ir_node *cmp_left = get_Cmp_left(sel);
+	/* an unsigned value is never negative */
+	if (!mode_is_signed(get_irn_mode(cmp_left)))
+		return 0;
 	if (cmp_left == mux_false) {
 		if (relation & ir_relation_less) {
 			return 1;
-- 
2.43.0


From 485ef0e2ad6a85db35d2050e7fb654d5f24f9e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:42 +0000
Subject: [PATCH 15/23] fix: only merge the relations of compares with the same
 operands

---
 ir/opt/iropt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index f00457c..2bed619 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -2627,7 +2627,7 @@ static ir_node *transform_node_Or_(ir_node *n)
 		ir_node *a_right = get_Cmp_right(a);
 		ir_node *b_left  = get_Cmp_left(b);
 		ir_node *b_right = get_Cmp_right(b);
-		if (a_left == b_left && b_left == b_right) {
+		if (a_left == b_left && a_right == b_right) {
 			dbg_info   *dbgi         = get_irn_dbg_info(n);
 			ir_node    *block        = get_nodes_block(n);
 			ir_relation a_relation   = get_Cmp_relation(a);
@@ -2753,7 +2753,7 @@ static ir_node *transform_node_Eor_(ir_node *n)
 		ir_node       *a_right = get_Cmp_right(a);
 		const ir_node *b_left  = get_Cmp_left(b);
 		const ir_node *b_right = get_Cmp_right(b);
-		if (a_left == b_left && b_left == b_right) {
+		if (a_left == b_left && a_right == b_right) {
 			dbg_info   *dbgi         = get_irn_dbg_info(n);
 			ir_node    *block        = get_nodes_block(n);
 			ir_relation a_relation   = get_Cmp_relation(a);
@@ -4342,7 +4342,7 @@ static ir_node *transform_node_And(ir_node *n)
 		ir_relation b_relation = get_Cmp_relation(b);
 		/* we can combine the relations of two compares with the same
 		 * operands */
-		if (a_left == b_left && b_left == b_right) {
+		if (a_left == b_left && a_right == b_right) {
 			dbg_info   *dbgi         = get_irn_dbg_info(n);
 			ir_node    *block        = get_nodes_block(n);
 			ir_relation new_relation = a_relation & b_relation;
-- 
2.43.0


From c439b2e9893dde528eeff3c7e286bee63d8c04ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:10 +0000
Subject: [PATCH 16/23] fix: do not combine oversized shift amounts

---
 ir/opt/iropt.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 2bed619..0305bb5 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -5969,6 +5969,18 @@ static ir_node *transform_node_shift(ir_node *n)
 	return irn;
 }
 
+/**
+ * Checks whether a constant shift amount reaches the size of a mode.
+ */
+static bool is_oversize_amount(ir_node const *amount, ir_mode *mode)
+{
+	ir_tarval *tv = get_Const_tarval(amount);
+	if (!tarval_is_long(tv))
+		return true;
+	long val = get_tarval_long(tv);
+	return val < 0 || val >= (long)get_mode_size_bits(mode);
+}
+
 /**
  * normalization:
  *    (x << c1) >> c2  <=>  x OP (c2-c1) & ((-1 << c1) >> c2)
@@ -6021,6 +6033,12 @@ static ir_node *transform_node_shl_shr(ir_node *n)
 		return n;
 	}
 
+	/* The amounts of oversized shifts must not be combined: they may be taken
+	 * modulo. */
+	if ((!is_Mul(left) && is_oversize_amount(get_binop_right(left), mode))
+	 || (!is_Mul(n) && is_oversize_amount(right, mode)))
+		return n;
+
 	tv_shl = tarval_convert_to(tv_shl, get_tarval_mode(tv_shr));
 
 	assert(tarval_is_constant(tv_mask));
-- 
2.43.0


From 9827c0ae0c3ff7ac31ddda68ffb6242de02ddbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:25 +0000
Subject: [PATCH 17/23] fix: distribute a disjoint addition as a bitwise
 operation

---
 ir/opt/iropt.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 0305bb5..2fa6157 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -2344,6 +2344,17 @@ static ir_node *new_binop(ir_node *const old, ir_node *const block, ir_node *con
 	return optimize_node(n);
 }
 
+/**
+ * Apply the bitwise operation of @p root to two other operands.  An Add, which
+ * got here because it behaves like an Eor, need not do so for them.
+ */
+static ir_node *new_bitop(ir_node *const root, ir_node *const block, ir_node *const l, ir_node *const r)
+{
+	if (is_Add(root))
+		return new_rd_Eor(get_irn_dbg_info(root), block, l, r);
+	return new_binop(root, block, l, r);
+}
+
 /**
  * makes use of distributive laws for and, or, eor
  *     and(a OP c, b OP c) -> and(a, b) OP c
@@ -2355,7 +2366,7 @@ static ir_node *transform_bitwise_distributive(ir_node *n)
 	ir_node     *a       = get_binop_left(n);
 	ir_node     *b       = get_binop_right(n);
 	const ir_op *op      = get_irn_op(a);
-	const ir_op *op_root = get_irn_op(n);
+	const ir_op *op_root = is_Add(n) ? op_Eor : get_irn_op(n);
 
 	if (op != get_irn_op(b))
 		return n;
@@ -2371,7 +2382,7 @@ static ir_node *transform_bitwise_distributive(ir_node *n)
 		const ir_mode *b_mode = get_irn_mode(b_op);
 		if (a_mode == b_mode && mode_is_int(a_mode)) {
 			ir_node *blk = get_nodes_block(n);
-			n = new_binop(n, blk, a_op, b_op);
+			n = new_bitop(n, blk, a_op, b_op);
 			n = new_r_Conv(blk, n, get_irn_mode(oldn));
 
 			DBG_OPT_ALGSIM1(oldn, a, b, n);
@@ -2416,7 +2427,7 @@ static ir_node *transform_bitwise_distributive(ir_node *n)
 		if (c != NULL) {
 			/* (a sop c) & (b sop c) => (a & b) sop c */
 			ir_node *const blk   = get_nodes_block(n);
-			ir_node *const new_n = new_binop(n, blk, op1, op2);
+			ir_node *const new_n = new_bitop(n, blk, op1, op2);
 
 			if (op_root == op_Eor && op == op_Or) {
 				dbg_info *dbgi = get_irn_dbg_info(n);
-- 
2.43.0


From 618c2d73435d6b418069d5e9824a4c3cb0a73c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:18 +0000
Subject: [PATCH 18/23] fix: a select on != or an always-true relation is no
 absolute value

---
 ir/opt/iropt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 2fa6157..a934b11 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -6550,8 +6550,9 @@ int ir_mux_is_abs(const ir_node *sel, const ir_node *mux_false,
 		return 0;
 
 	/* must be <, <=, >=, > */
-	ir_relation relation = get_Cmp_relation(sel);
-	if ((relation & ir_relation_less_greater) == 0)
+	ir_relation       relation = get_Cmp_relation(sel);
+	ir_relation const ordered  = relation & ir_relation_less_greater;
+	if (ordered != ir_relation_less && ordered != ir_relation_greater)
 		return 0;
 
 	if (!ir_is_negated_value(mux_true, mux_false))
-- 
2.43.0


From 4e4606a602e512aa62b31f3c02b4afb7c08154a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:52 +0000
Subject: [PATCH 19/23] fix: inverse the relation of a Confirm used from its
 bound

---
 ir/opt/opt_confirms.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ir/opt/opt_confirms.c b/ir/opt/opt_confirms.c
index c9c0b92..c9d02e5 100644
--- a/ir/opt/opt_confirms.c
+++ b/ir/opt/opt_confirms.c
@@ -387,12 +387,14 @@ ir_tarval *computed_value_Cmp_Confirm(ir_node *left, ir_node *right,
 		 * checked later anyway.
 		 */
 		if (left == r_bound) {
+			/* the Confirm states r CMP l, turn it into l CMP r */
+			ir_relation inv_relation = get_inversed_relation(r_relation);
 			/*
 			 * l == bound(r) AND relation(r) == relation:
 			 *
 			 * We know that a CMP b and check for that
 			 */
-			if ((r_relation == relation) || (r_relation == (relation & ~ir_relation_equal))) {
+			if ((inv_relation == relation) || (inv_relation == (relation & ~ir_relation_equal))) {
 				return tarval_b_true;
 			} else {
 				/*
@@ -402,7 +404,7 @@ ir_tarval *computed_value_Cmp_Confirm(ir_node *left, ir_node *right,
 				 */
 				ir_relation neg_relation = get_negated_relation(relation);
 
-				if ((r_relation == neg_relation) || (r_relation == (neg_relation & ~ir_relation_equal))) {
+				if ((inv_relation == neg_relation) || (inv_relation == (neg_relation & ~ir_relation_equal))) {
 					return tarval_b_false;
 				}
 			}
-- 
2.43.0


From a10b260c341e4282b217096582d9ecd5d6d48a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:50 +0000
Subject: [PATCH 20/23] fix: an oversized arithmetic right shift leaves copies
 of the sign bit

---
 ir/ana/constbits.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ir/ana/constbits.c b/ir/ana/constbits.c
index 2fb70c9..c7d52d7 100644
--- a/ir/ana/constbits.c
+++ b/ir/ana/constbits.c
@@ -471,8 +471,14 @@ undefined:
 						ir_tarval  *const all_one       = get_mode_all_one(m);
 						ir_tarval  *const oversize_mask = tarval_andnot(modulo_mask, size_mask);
 
-						z = zero;
-						o = tarval_is_null(tarval_and(rz, oversize_mask)) ? all_one : zero;
+						if (tarval_is_null(tarval_and(rz, oversize_mask))) {
+							z = zero;
+							o = all_one;
+						} else {
+							/* An oversized shift amount replicates the sign bit. */
+							z = tarval_shrs_unsigned(lz, size_bits - 1);
+							o = tarval_shrs_unsigned(lo, size_bits - 1);
+						}
 
 						if (tarval_is_null(tarval_and(ro, oversize_mask))) {
 							ir_tarval *const rmask  = tarval_and(size_mask, modulo_mask);
-- 
2.43.0


From 8bcdb45a69e1ffd218fcce5ad1e58efeb2fd5a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:14 +0000
Subject: [PATCH 21/23] fix: address of ARM loads and stores with a large
 negative offset

---
 ir/be/arm/arm_optimize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/be/arm/arm_optimize.c b/ir/be/arm/arm_optimize.c
index 1e0f4d5..7085ba8 100644
--- a/ir/be/arm/arm_optimize.c
+++ b/ir/be/arm/arm_optimize.c
@@ -144,7 +144,7 @@ static void peephole_arm_Str_Ldr(ir_node *node)
 	}
 
 	arm_vals v;
-	arm_gen_vals_from_word(offset, &v);
+	arm_gen_vals_from_word(use_add ? offset : -offset, &v);
 	if (use_add) {
 		ptr = gen_ptr_add(node, ptr, &v);
 	} else {
-- 
2.43.0


From 95b6a169f60fa192fe70ad62f16de5a45a28b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:14 +0000
Subject: [PATCH 22/23] fix: RISC-V arithmetic shift of unsigned 8-bit values
 copies the sign bit

---
 ir/be/riscv/riscv_transform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/be/riscv/riscv_transform.c b/ir/be/riscv/riscv_transform.c
index e4a4a6e..d0659d2 100644
--- a/ir/be/riscv/riscv_transform.c
+++ b/ir/be/riscv/riscv_transform.c
@@ -1083,7 +1083,7 @@ static ir_node *gen_shift_op(ir_node *const node, cons_binop *const cons, cons_b
 	 */
 	if (needs_extension) {
 		assert(is_uimm5(extend));
-		if (!mode_is_signed(mode) && size == 8) {
+		if (cons_imm == &new_bd_riscv_srli && size == 8) {
 			new_l = new_bd_riscv_andi(dbgi, block, new_l, NULL, (1U << size) - 1);
 			needs_extension = false;
 		} else {
-- 
2.43.0


From d8baaaf03113a196a866e7f1ab2638377b93160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:14 +0000
Subject: [PATCH 23/23] fix: SPARC loads and stores keep a frame offset that
 does not fit an immediate

---
 ir/be/sparc/sparc_finish.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ir/be/sparc/sparc_finish.c b/ir/be/sparc/sparc_finish.c
index 3984146..1c0e8d0 100644
--- a/ir/be/sparc/sparc_finish.c
+++ b/ir/be/sparc/sparc_finish.c
@@ -216,12 +216,8 @@ static void finish_sparc_FrameAddr(ir_node *node)
 	}
 }
 
-static void finish_load_store(ir_node *const old, ir_node *const nw, sparc_load_store_attr_t const *const ldst_attr)
+static void finish_load_store(ir_node *const old, ir_node *const nw)
 {
-	sparc_load_store_attr_t *const new_ldst_attr = get_sparc_load_store_attr(nw);
-	new_ldst_attr->is_frame_entity = ldst_attr->is_frame_entity;
-	new_ldst_attr->is_reg_reg      = ldst_attr->is_reg_reg;
-
 	be_foreach_out(old, i) {
 		arch_set_irn_register_out(nw, i, arch_get_irn_register_out(old, i));
 	}
@@ -245,7 +241,7 @@ static void finish_sparc_Ld(ir_node *node)
 		ir_mode                 *load_store_mode = load_store_attr->load_store_mode;
 		ir_node                 *constant        = create_constant_from_immediate(node, offset);
 		ir_node                 *new_load        = new_bd_sparc_Ld_reg(dbgi, block, mem, ptr, constant, load_store_mode);
-		finish_load_store(node, new_load, load_store_attr);
+		finish_load_store(node, new_load);
 	}
 }
 
@@ -297,7 +293,7 @@ static void finish_sparc_Ldf(ir_node *node)
 		ir_node                 *constant        = create_constant_from_immediate(node, offset);
 		ir_node                 *new_ptr         = new_bd_sparc_Add_reg(dbgi, block, ptr, constant);
 		ir_node                 *new_load        = new_bd_sparc_Ldf_s(dbgi, block, new_ptr, mem, load_store_mode, NULL, 0, true);
-		finish_load_store(node, new_load, load_store_attr);
+		finish_load_store(node, new_load);
 	}
 }
 
@@ -319,7 +315,7 @@ static void finish_sparc_St(ir_node *node)
 		ir_mode                 *load_store_mode = load_store_attr->load_store_mode;
 		ir_node                 *constant        = create_constant_from_immediate(node, offset);
 		ir_node                 *new_load        = new_bd_sparc_St_reg(dbgi, block, mem, value, ptr, constant, load_store_mode);
-		finish_load_store(node, new_load, load_store_attr);
+		finish_load_store(node, new_load);
 	}
 }
 
@@ -342,7 +338,7 @@ static void finish_sparc_Stf(ir_node *node)
 		ir_node  *constant        = create_constant_from_immediate(node, offset);
 		ir_node  *new_ptr         = new_bd_sparc_Add_reg(dbgi, block, ptr, constant);
 		ir_node  *new_load        = new_bd_sparc_Stf_s(dbgi, block, value, new_ptr, mem, load_store_mode, NULL, 0, true);
-		finish_load_store(node, new_load, load_store_attr);
+		finish_load_store(node, new_load);
 	}
 }
 
-- 
2.43.0

