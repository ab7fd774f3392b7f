/* C18. Double-ended queue: every operation under contract on an arbitrary
 * well-formed deque (1..3 blocks; the blocks between the ends are only passed
 * by, so three stand for any number) - inductive over all histories.
 * Priority queue: histories of puts and pops with arbitrary priorities. */
#include "vf.h"
#include <assert.h>
#include "adt/xmalloc.h"
static void vf_free(void *p);
#define free(p) vf_free(p)
#include "adt/deq.c"
#include "adt/pqueue.c"
#undef free
#include "pdeq.h"

/* allocation: a block of the documented size (a typed object, the header and the data behind it) that was not in use; release of a block in use, once */
#ifndef NB
#define NB 1
#endif
#define POOL (NB + 3)
#define DATA ((unsigned)(DEQ_BLOCK_DATA_SIZE))
typedef struct { deq_block_t b; void *data[2024 / 8]; } block_t;
static block_t p0, p1, p2, p3, p4, p5; static unsigned used; static bool live[6];
static block_t *pool(unsigned i) { return i == 0 ? &p0 : i == 1 ? &p1 : i == 2 ? &p2 : i == 3 ? &p3 : i == 4 ? &p4 : &p5; }
static pqueue_t the_queue;
static bool heap_test;
void *xmalloc(size_t n)
{
	if (heap_test) { ENSURE("queue object", n == sizeof(the_queue)); return &the_queue; }
	ENSURE("block size", n == sizeof(block_t));
	ASSUME(used < 6);
	live[used] = true;
	return pool(used++);
}
static void vf_free(void *p) { for (unsigned i = 0; i < 6; ++i) if (p == (void*)pool(i)) { ENSURE("a block is released once", live[i]); live[i] = false; } }
static unsigned n_live(void) { unsigned n = 0; for (unsigned i = 0; i < 6; ++i) n += live[i]; return n; }
#ifdef VF_CBMC
void print_panic(char const *file, int line, char const *func, char const *fmt, ...) { __CPROVER_assert(0, "panic"); __CPROVER_assume(0); }
#else
void print_panic(char const *file, int line, char const *func, char const *fmt, ...) { vf_fail("panic"); longjmp(vf_jmp, 1); }
#endif
/* flexible arrays through their contract: length changes, elements stay */
static struct { ir_arr_descr d; pqueue_el_t e[16]; } arr_store;
void ir_verify_arr(const void *a) { (void)a; }
void *ir_new_arr_f(size_t n, size_t sz) { arr_store.d.nelts = n; return arr_store.e; }
void *ir_arr_resize(void *a, size_t n, size_t es) { ASSUME(n <= 16); arr_store.d.nelts = n; return a; }
void *ir_arr_setlen(void *a, size_t n, size_t es) { ASSUME(n <= 16); arr_store.d.nelts = n; return a; }
void DEL_ARR_F(void *a) { (void)a; }
static deq_t q;
static char *cell; static unsigned cell_pos, total;

/* length of the content, or ~0u if links or ends are not well formed; which
 * block holds the marked byte is compared, not the addresses */
static unsigned cell_block, cell_off; static deq_block_t *blk[NB];
static unsigned walk_cell(unsigned *pos)
{
	unsigned n = 0, k = 0; deq_block_t *prev = NULL;
	*pos = ~0u;
	for (deq_block_t *b = q.left_end; b != NULL; b = b->next_right) {
		if (++k > NB + 2) return ~0u;
		if (b->next_left != prev || b->l > b->r || b->r > DATA) return ~0u;
		if (b->l == b->r && !(b == q.left_end && b == q.right_end)) return ~0u;
		if (cell != NULL && b == blk[cell_block] && b->l <= cell_off && cell_off < b->r) *pos = n + cell_off - b->l;
		n += b->r - b->l;
		prev = b;
	}
	if (n_live() != k) return ~0u;   /* the blocks in use are those linked */
	return prev == q.right_end ? n : ~0u;
}
static void build(void)
{
	heap_test = false; used = 0; for (unsigned i = 0; i < 6; ++i) live[i] = false;
	for (unsigned i = 0; i < NB; ++i) {
		blk[i] = xmalloc(2048);
		unsigned l = VF_IN("l", i, unsigned), r = VF_IN("r", i, unsigned);
#ifdef L0
		l = i == 0 ? L0 : 8; r = i == NB - 1 ? R0 : DATA;
#endif
#ifndef VF_CBMC
		if (!vf_replaying) { r = r % (DATA + 1); l = r == 0 ? 0 : NB > 1 ? l % r : l % (r + 1);
			if (l % 3 == 0) r = DATA; if (l % 5 == 0) l = l % 10 == 0 ? 0 : (l / 8) * 8; vf_native_fix("l", i, l); vf_native_fix("r", i, r); }
#endif
		ASSUME(l <= r && r <= DATA && (NB == 1 || l < r));
		blk[i]->l = l; blk[i]->r = r;
		blk[i]->next_left  = i > 0 ? blk[i - 1] : NULL;
		blk[i]->next_right = NULL;
		if (i > 0) blk[i - 1]->next_right = blk[i];
	}
	q.left_end = blk[0]; q.right_end = blk[NB - 1];
	cell = NULL;
	/* one arbitrary byte of the content is followed */
	IN_RANGE(unsigned, cb, 0u, (unsigned)NB - 1); IN_RANGE(unsigned, co, 0u, DATA - 1);
	cell_block = cb; cell_off = co;
	if (blk[cb]->l <= co && co < blk[cb]->r) { cell = &blk[cb]->data[co]; }
	total = walk_cell(&cell_pos);
	ASSUME(total != ~0u);
}
static void done(void)
{
	deq_free(&q);
	ENSURE("free: every block released", n_live() == 0);
}
#define CELL_KEPT(id, p) do { ENSURE(id ": other bytes keep their place", cell == NULL || pos_ == (unsigned)(p)); } while (0)

void h_push_left(void)
{
	build();
	IN_RANGE(unsigned, size, 1u, DATA - 1);
	char *p = deq_alloc_left(&q, size);
	ENSURE("alloc_left: at the left end", p == deq_left_end(&q));
	ENSURE("alloc_left: inside the block", q.left_end->l + size <= q.left_end->r && q.left_end->r <= DATA);
	unsigned pos_, t = walk_cell(&pos_);
	ENSURE("alloc_left: well formed, longer by size", t == total + size);
	CELL_KEPT("alloc_left", cell_pos + size);
	ENSURE("alloc_left: not empty", !deq_empty(&q));
	deq_shrink_left(&q, size);
	t = walk_cell(&pos_);
	ENSURE("push, pop left: as before", t == total && deq_empty(&q) == (total == 0));
	CELL_KEPT("push, pop left", cell_pos);
	done();
	REACH("end");
}
void h_push_right(void)
{
	build();
	IN_RANGE(unsigned, size, 1u, DATA - 1);
	char *p = deq_alloc_right(&q, size);
	ENSURE("alloc_right: at the right end", p == deq_right_end_obj(&q, size));
	ENSURE("alloc_right: inside the block", q.right_end->r >= q.right_end->l + size && q.right_end->r <= DATA);
	unsigned pos_, t = walk_cell(&pos_);
	ENSURE("alloc_right: well formed, longer by size", t == total + size);
	CELL_KEPT("alloc_right", cell_pos);
	ENSURE("alloc_right: not empty", !deq_empty(&q));
	deq_shrink_right(&q, size);
	t = walk_cell(&pos_);
	ENSURE("push, pop right: as before", t == total && deq_empty(&q) == (total == 0));
	CELL_KEPT("push, pop right", cell_pos);
	done();
	REACH("end");
}
/* an element lies in one block, so no more than the end block holds is popped */
void h_pop_left(void)
{
	build();
	IN_RANGE(unsigned, size, 1u, DATA - 1);
	ASSUME(size <= q.left_end->r - q.left_end->l);
	ENSURE("left_end is the first byte", !(cell != NULL && cell_pos == 0) || (char*)deq_left_end(&q) == cell);
	bool gone = cell != NULL && cell_pos < size;
	deq_shrink_left(&q, size);
	if (gone) cell = NULL;
	unsigned pos_, t = walk_cell(&pos_);
	ENSURE("shrink_left: well formed, shorter by size", t == total - size);
	CELL_KEPT("shrink_left", cell_pos - size);
	ENSURE("shrink_left: empty", deq_empty(&q) == (t == 0));
	done();
	REACH("end");
}
void h_pop_right(void)
{
	build();
	IN_RANGE(unsigned, size, 1u, DATA - 1);
	ASSUME(size <= q.right_end->r - q.right_end->l);
	ENSURE("right end is the last bytes", !(cell != NULL && cell_pos == total - size) || (char*)deq_right_end_obj(&q, size) == cell);
	bool gone = cell != NULL && cell_pos >= total - size;
	deq_shrink_right(&q, size);
	if (gone) cell = NULL;
	unsigned pos_, t = walk_cell(&pos_);
	ENSURE("shrink_right: well formed, shorter by size", t == total - size);
	CELL_KEPT("shrink_right", cell_pos);
	ENSURE("shrink_right: empty", deq_empty(&q) == (t == 0));
	done();
	REACH("end");
}
/* pointers pushed at one end come back at either end */
void h_pointer(void)
{
	build();
	ASSUME(q.left_end->l % 8 == 0 && q.left_end->r % 8 == 0 && q.right_end->l % 8 == 0 && q.right_end->r % 8 == 0);
	IN(uint64_t, x); IN(uint64_t, y);
	deq_push_pointer_left(&q, (void*)(uintptr_t)x);
	deq_push_pointer_right(&q, (void*)(uintptr_t)y);
	unsigned pos_, t = walk_cell(&pos_);
	ENSURE("pointers: well formed", t == total + 2 * sizeof(void*));
	CELL_KEPT("pointers", cell_pos + sizeof(void*));
	IN(bool, first);
	if (first) {
		ENSURE("left pointer", (uintptr_t)deq_pop_pointer_left(void, &q) == x);
		ENSURE("right pointer", (uintptr_t)deq_pop_pointer_right(void, &q) == y);
	} else {
		ENSURE("right pointer", (uintptr_t)deq_pop_pointer_right(void, &q) == y);
		ENSURE("left pointer", (uintptr_t)deq_pop_pointer_left(void, &q) == x);
	}
	t = walk_cell(&pos_);
	ENSURE("pointers: as before", t == total && deq_empty(&q) == (total == 0));
	CELL_KEPT("pointers", cell_pos);
	done();
	REACH("end");
}
#ifndef LEFT
#define LEFT 1
#define FRONT 1
#endif
void h_deq_init(void)
{
	heap_test = false; used = 0; for (unsigned i = 0; i < 6; ++i) live[i] = false;
	deq_init(&q);
	cell = NULL;
	unsigned pos_, t = walk_cell(&pos_);
	ENSURE("init: empty", t == 0 && deq_empty(&q));
	IN(uint64_t, x); IN(uint64_t, y); const bool left = LEFT, front = FRONT;
	if (left) deq_push_pointer_left(&q, (void*)(uintptr_t)x); else deq_push_pointer_right(&q, (void*)(uintptr_t)x);
	if (left) deq_push_pointer_left(&q, (void*)(uintptr_t)y); else deq_push_pointer_right(&q, (void*)(uintptr_t)y);
	unsigned n = 0;
	deq_foreach_pointer(&q, void, e) { ENSURE("foreach order", (uintptr_t)e == ((n == 0) == left ? y : x)); ++n; if (n > 2) break; }
	ENSURE("foreach count", n == 2);
	uintptr_t a = front ? (uintptr_t)deq_pop_pointer_left(void, &q) : (uintptr_t)deq_pop_pointer_right(void, &q);
	ENSURE("first out", a == (front == left ? y : x));
	uintptr_t b = front ? (uintptr_t)deq_pop_pointer_right(void, &q) : (uintptr_t)deq_pop_pointer_left(void, &q);
	ENSURE("second out", b == (front == left ? x : y));
	ENSURE("empty again", deq_empty(&q));
	done();
	REACH("end");
}

#ifndef N
#define N 4
#define P1 1
#define M 1
#define PB 32
#endif
/* N puts, P1 pops, M puts, then everything is popped: every pop gives an element of greatest priority among those inside, none is lost, none is made up */
static int prio[N + M]; static bool in[N + M]; static unsigned cnt;
static void put(pqueue_t *p, unsigned i)
{
	prio[i] = VF_IN("prio", i, int); in[i] = true; ++cnt;
#ifndef VF_CBMC
	if (!vf_replaying && (prio[i] & 0x100)) { prio[i] &= 7; vf_native_fix("prio", i, prio[i]); }
#endif
	if (PB < 32) {
#ifndef VF_CBMC
		if (!vf_replaying) { prio[i] &= (1 << (PB & 31)) - 1; vf_native_fix("prio", i, prio[i]); }
#endif
		ASSUME(prio[i] >= 0 && prio[i] < 1 << (PB & 31));
	}
	pqueue_put(p, &prio[i], prio[i]);
	ENSURE("length after put", pqueue_length(p) == cnt && !pqueue_empty(p));
}
static void pop(pqueue_t *p)
{
	int *d = pqueue_pop_front(p);
	bool found = false;
	for (unsigned i = 0; i < N + M; ++i) if (d == &prio[i] && in[i]) { found = true; in[i] = false; for (unsigned k = 0; k < N + M; ++k) ENSURE("greatest priority", !in[k] || prio[k] <= prio[i]); }
	ENSURE("an element inside", found);
	--cnt;
	ENSURE("length after pop", pqueue_length(p) == cnt && pqueue_empty(p) == (cnt == 0));
}
void h_pqueue(void)
{
	heap_test = true;
	pqueue_t *p = new_pqueue();
	cnt = 0; for (unsigned i = 0; i < N + M; ++i) in[i] = false;
	ENSURE("empty", pqueue_empty(p) && pqueue_length(p) == 0);
	for (unsigned i = 0; i < N; ++i) put(p, i);
	for (unsigned i = 0; i < P1; ++i) pop(p);
	for (unsigned i = 0; i < M; ++i) put(p, N + i);
	while (cnt > 0) pop(p);
	del_pqueue(p);
	REACH("end");
}
