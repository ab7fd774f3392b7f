/* C16: contracts of adt/raw_bitset.h and adt/bitset.h. A bitset of `size` bits
 * is the set { k < size | bit k }. Invariant: bits of the last word at or above
 * `size` are zero. k is an arbitrary index, so each clause is quantified over
 * all elements. The storage is exactly as large as documented. */
#include "vf.h"
#include "raw_bitset.h"
#include "bitset.h"

/* sizes LO..HI, each one concrete, contents and positions arbitrary */
#ifndef LO
#define LO 0
#define HI 33
#endif
#define W ((HI) / 32 + 1)
#define MAXB (HI)
typedef unsigned set_t[W + 1];
static size_t size;
/* inputs are numbered by the size they belong to */
#undef IN
#define IN(type, name)            type name = VF_IN(#name, size, type)
#undef IN_RANGE
#ifdef VF_CBMC
#define IN_RANGE(type, name, lo, hi) type name = VF_IN(#name, size, type); ASSUME(name >= (lo) && name <= (hi))
#else
#define IN_RANGE(type, name, lo, hi) type name = VF_IN(#name, size, type); \
	if (!vf_replaying) { name = (lo) + name % ((hi) - (lo) + 1); vf_native_fix(#name, size, name); } ASSUME(name >= (lo) && name <= (hi))
#endif
#define EACH_SIZE(f) void h_##f(void) { for (size = LO; size <= HI; ++size) f(); REACH("end"); }

static bool has(const unsigned *s, size_t k)
{
	return k < size && ((s[k / 32] >> (k % 32)) & 1);
}
static bool wf(const unsigned *s)
{
	return size % 32 == 0 || (s[size / 32] >> (size % 32)) == 0;
}
static size_t n_words(void) { return (size + 31) / 32; }

static unsigned *mkset(const char *nm, set_t ghost)
{
	unsigned *s = malloc(n_words() * sizeof(unsigned));
	ASSUME(n_words() == 0 || s != NULL);
	for (unsigned i = 0; i < W + 1; ++i) {
		unsigned v = 0;
		if (i < n_words()) {
			v = nm[0] == 'a' ? VF_IN("a", size * W + i, unsigned) : VF_IN("b", size * W + i, unsigned);
#ifndef VF_CBMC
			if (i == n_words() - 1 && size % 32 != 0 && !vf_replaying) {
				v &= (1u << (size % 32)) - 1;
				vf_native_fix(nm, size * W + i, v);
			}
#endif
			s[i] = v;
		}
		ghost[i] = v;
	}
	ASSUME(wf(ghost));
	return s;
}
/* the set after an operation: well formed, and membership of k as expected */
#define POST(id, s, expect) do { \
	set_t g_; for (unsigned i_ = 0; i_ < W + 1; ++i_) g_[i_] = i_ < n_words() ? (s)[i_] : 0; \
	ENSURE(id ".wf", wf(g_)); \
	if (k < size) ENSURE(id, has(g_, k) == (expect)); } while (0)

#define PRE \
	IN_RANGE(size_t, k, (size_t)0, (size_t)MAXB); \
	set_t ga, gb; unsigned *a = mkset("a", ga); unsigned *b = mkset("b", gb); (void)gb; (void)b
#define DONE free(a); free(b)

static void single(void)
{
	PRE;
	IN_RANGE(size_t, p, (size_t)0, (size_t)MAXB);
	if (p >= size) return;
	IN(uint8_t, which);
	ENSURE("is_set", rbitset_is_set(a, p) == has(ga, p));
	if (which == 0) {
		rbitset_set(a, p);
		POST("set", a, k == p || has(ga, k));
	} else if (which == 1) {
		rbitset_clear(a, p);
		POST("clear", a, k != p && has(ga, k));
	} else {
		rbitset_flip(a, p);
		POST("flip", a, (k == p) != has(ga, k));
	}
	DONE;
}
EACH_SIZE(single)

static void bulk(void)
{
	PRE;
	IN(uint8_t, which);
	switch (which) {
	case 0: rbitset_and(a, b, size);    POST("and", a, has(ga, k) && has(gb, k)); break;
	case 1: rbitset_or(a, b, size);     POST("or", a, has(ga, k) || has(gb, k)); break;
	case 2: rbitset_andnot(a, b, size); POST("andnot", a, has(ga, k) && !has(gb, k)); break;
	case 3: rbitset_xor(a, b, size);    POST("xor", a, has(ga, k) != has(gb, k)); break;
	case 4: rbitset_copy(a, b, size);   POST("copy", a, has(gb, k)); break;
	case 5: rbitset_set_all(a, size);   POST("set_all", a, true); break;
	case 6: rbitset_clear_all(a, size); POST("clear_all", a, false); break;
	default: rbitset_flip_all(a, size); POST("flip_all", a, !has(ga, k)); break;
	}
	POST("frame", b, has(gb, k));
	DONE;
}
EACH_SIZE(bulk)

static void range(void)
{
	PRE;
	IN_RANGE(size_t, from, (size_t)0, (size_t)MAXB);
	IN_RANGE(size_t, to, (size_t)0, (size_t)MAXB);
	IN(bool, val);
	if (!(from < to && to <= size)) return;
	rbitset_set_range(a, from, to, val);
	POST("set_range", a, from <= k && k < to ? val : has(ga, k));
	DONE;
}
EACH_SIZE(range)

static void query(void)
{
	PRE;
	bool empty = true, sub = true, common = false, equal = true;
	size_t count = 0;
	for (size_t i = 0; i < MAXB; ++i) {
		bool x = has(ga, i), y = has(gb, i);
		empty &= !x; sub &= !x || y; common |= x && y; equal &= x == y;
	}
	for (size_t i = 0; i < n_words(); ++i)
		count += popcount(ga[i]); /* cardinality of one word: contract of popcount(), C15 */
	ENSURE("is_empty", rbitset_is_empty(a, size) == empty);
	ENSURE("contains", rbitset_contains(a, b, size) == sub);
	ENSURE("have_common", rbitsets_have_common(a, b, size) == common);
	ENSURE("equal", rbitsets_equal(a, b, size) == equal);
	ENSURE("popcount", rbitset_popcount(a, size) == count);
	POST("frame_a", a, has(ga, k));
	POST("frame_b", b, has(gb, k));
	DONE;
}
EACH_SIZE(query)

static void next(void)
{
	PRE;
	IN_RANGE(size_t, p, (size_t)0, (size_t)MAXB);
	IN_RANGE(size_t, last, (size_t)0, (size_t)MAXB);
	IN(bool, set);
	if (!(p <= last && last <= size)) return;
	size_t r = rbitset_next_max(a, p, last, set);
	if (r == (size_t)-1) {
		if (p <= k && k < last) ENSURE("next_max.none", has(ga, k) != set);
	} else {
		ENSURE("next_max.in", p <= r && r < last && has(ga, r) == set);
		if (p <= k && k < r) ENSURE("next_max.first", has(ga, k) != set);
	}
	/* rbitset_next: a matching bit at or after p exists */
	IN_RANGE(size_t, w, (size_t)0, (size_t)MAXB);
	if (p <= w && w < size && has(ga, w) == set) {
		size_t q = rbitset_next(a, p, set);
		ENSURE("next.in", p <= q && q <= w && has(ga, q) == set);
		if (p <= k && k < q) ENSURE("next.first", has(ga, k) != set);
	}
	DONE;
}
EACH_SIZE(next)

static void prev(void)
{
	PRE;
	IN_RANGE(size_t, p, (size_t)0, (size_t)MAXB);
	IN(bool, set);
	if (p > size) return;
	size_t r = rbitset_prev(a, p, set);
	if (r == (size_t)-1) {
		if (k < p) ENSURE("prev.none", has(ga, k) != set);
	} else {
		ENSURE("prev.in", r < p && has(ga, r) == set);
		if (r < k && k < p) ENSURE("prev.last", has(ga, k) != set);
	}
	DONE;
}
EACH_SIZE(prev)

static void minus1(void)
{
	PRE;
	rbitset_minus1(a, size);
	/* bit k of (number - 1): flips iff all lower bits were zero */
	bool low_zero = true;
	for (size_t i = 0; i < MAXB; ++i)
		if (i < k && has(ga, i)) low_zero = false;
	POST("minus1", a, has(ga, k) != low_zero);
	DONE;
}
EACH_SIZE(minus1)

/* ---- the sized bitset_t built on top ---- */
static bitset_t *mkbs(const char *nm, set_t ghost)
{
	void *mem = malloc(bitset_total_size(size));
	ASSUME(mem != NULL);
	bitset_t *bs = bitset_init(mem, size);
	ENSURE("init.size", bitset_size(bs) == size);
	for (unsigned i = 0; i < n_words(); ++i)
		ENSURE("init.empty", bs->data[i] == 0);
	unsigned *s = mkset(nm, ghost);
	for (unsigned i = 0; i < n_words(); ++i)
		bs->data[i] = s[i];
	free(s);
	return bs;
}
#define BPRE \
	IN_RANGE(size_t, k, (size_t)0, (size_t)MAXB); \
	set_t ga, gb; bitset_t *a = mkbs("a", ga); bitset_t *b = mkbs("b", gb)
#define BPOST(id, x, e) do { POST(id, (x)->data, e); ENSURE(id ".size", (x)->size == size); } while (0)

static void bs_single(void)
{
	BPRE;
	IN_RANGE(size_t, p, (size_t)0, (size_t)MAXB);
	if (p >= size) return;
	IN(uint8_t, which);
	ENSURE("bitset_is_set", bitset_is_set(a, p) == has(ga, p));
	switch (which) {
	case 0: bitset_set(a, p);   BPOST("bitset_set", a, k == p || has(ga, k)); break;
	case 1: bitset_clear(a, p); BPOST("bitset_clear", a, k != p && has(ga, k)); break;
	default: bitset_flip(a, p); BPOST("bitset_flip", a, (k == p) != has(ga, k)); break;
	}
	BPOST("bitset_frame", b, has(gb, k));
	DONE;
}
EACH_SIZE(bs_single)
static void bs_bulk(void)
{
	BPRE;
	IN(uint8_t, which);
	switch (which) {
	case 0: bitset_and(a, b);    BPOST("bitset_and", a, has(ga, k) && has(gb, k)); break;
	case 1: bitset_or(a, b);     BPOST("bitset_or", a, has(ga, k) || has(gb, k)); break;
	case 2: bitset_andnot(a, b); BPOST("bitset_andnot", a, has(ga, k) && !has(gb, k)); break;
	case 3: bitset_xor(a, b);    BPOST("bitset_xor", a, has(ga, k) != has(gb, k)); break;
	case 4: bitset_copy(a, b);   BPOST("bitset_copy", a, has(gb, k)); break;
	case 5: bitset_set_all(a);   BPOST("bitset_set_all", a, true); break;
	case 6: bitset_clear_all(a); BPOST("bitset_clear_all", a, false); break;
	case 7: rbitset_copy_to_bitset(b->data, a); BPOST("rbitset_copy_to_bitset", a, has(gb, k)); break;
	default: bitset_flip_all(a); BPOST("bitset_flip_all", a, !has(ga, k)); break;
	}
	BPOST("bitset_frame", b, has(gb, k));
	DONE;
}
EACH_SIZE(bs_bulk)
static void bs_minus1(void)
{
	BPRE; (void)gb;
	bitset_minus1(a);
	bool low_zero = true;
	for (size_t i = 0; i < MAXB; ++i)
		if (i < k && has(ga, i)) low_zero = false;
	BPOST("bitset_minus1", a, has(ga, k) != low_zero);
	DONE;
}
EACH_SIZE(bs_minus1)
static void bs_range(void)
{
	BPRE; (void)gb;
	IN_RANGE(size_t, from, (size_t)0, (size_t)MAXB);
	IN_RANGE(size_t, to, (size_t)0, (size_t)MAXB + 40);
	IN(bool, val);
	/* documented: [from;to[; exchanged bounds and a bound behind the end are tolerated */
	size_t lo = from < to ? from : to, hi = from < to ? to : from;
	if (lo >= size && from != to) return;
	bitset_mod_range(a, from, to, val);
	BPOST("bitset_mod_range", a, lo <= k && k < hi ? val : has(ga, k));
	DONE;
}
EACH_SIZE(bs_range)
static void bs_query(void)
{
	BPRE;
	bool empty = true, sub = true, common = false;
	size_t count = 0;
	for (size_t i = 0; i < MAXB; ++i) {
		bool x = has(ga, i), y = has(gb, i);
		empty &= !x; sub &= !x || y; common |= x && y;
	}
	for (size_t i = 0; i < n_words(); ++i)
		count += popcount(ga[i]);
	ENSURE("bitset_is_empty", bitset_is_empty(a) == empty);
	ENSURE("bitset_contains", bitset_contains(a, b) == sub);
	ENSURE("bitset_intersect", bitset_intersect(a, b) == common);
	ENSURE("bitset_popcount", bitset_popcount(a) == count);
	BPOST("bitset_frame_a", a, has(ga, k));
	BPOST("bitset_frame_b", b, has(gb, k));
	DONE;
}
EACH_SIZE(bs_query)
static void bs_iter(void)
{
	BPRE; (void)gb;
	IN_RANGE(size_t, p, (size_t)0, (size_t)MAXB);
	IN(bool, set);
	if (p > size) return;
	size_t r = set ? bitset_next_set(a, p) : bitset_next_clear(a, p);
	if (r == (size_t)-1) {
		if (p <= k && k < size) ENSURE("bitset_next.none", has(ga, k) != set);
	} else {
		ENSURE("bitset_next.in", p <= r && r < size && has(ga, r) == set);
		if (p <= k && k < r) ENSURE("bitset_next.first", has(ga, k) != set);
	}
	size_t q = set ? bitset_prev_set(a, p) : bitset_prev_clear(a, p);
	if (q == (size_t)-1) {
		if (k < p) ENSURE("bitset_prev.none", has(ga, k) != set);
	} else {
		ENSURE("bitset_prev.in", q < p && has(ga, q) == set);
		if (q < k && k < p) ENSURE("bitset_prev.last", has(ga, k) != set);
	}
	DONE;
}
EACH_SIZE(bs_iter)
/* iteration macros visit exactly the members, each once */
static void bs_foreach(void)
{
	IN_RANGE(size_t, k, (size_t)0, (size_t)MAXB);
	set_t ga; bitset_t *a = mkbs("a", ga);
	unsigned fwd = 0, bwd = 0, fwdc = 0, bwdc = 0;
	bitset_foreach(a, e)           { if (e == k) fwd++; }
	bitset_foreach_clear(a, e)     { if (e == k) fwdc++; }
	bitset_foreach_rev(a, e)       { if (e == k) bwd++; }
	bitset_foreach_clear_rev(a, e) { if (e == k) bwdc++; }
	ENSURE("foreach", fwd == (k < size && has(ga, k)));
	ENSURE("foreach_rev", bwd == (k < size && has(ga, k)));
	ENSURE("foreach_clear", fwdc == (k < size && !has(ga, k)));
	ENSURE("foreach_clear_rev", bwdc == (k < size && !has(ga, k)));
	free(a);
}
EACH_SIZE(bs_foreach)
