BUGS = [
 dict(id="c18-heap-last", property="C18", needs="a heap in which the greater child of the sifted element is the last one",
      breaks="the last element of the heap is not considered as right child when the top is replaced, so a smaller element is popped before it",
      edits=[("ir/adt/pqueue.c", "if ((pos * 2 + 1) < len\n", "if ((pos * 2 + 2) < len\n")],
      demo=r'''
#include <stdio.h>
#include <stdlib.h>
#include "pqueue.h"
int main(void)
{
	for (unsigned s = 0; s < 3000; ++s) {
		srand(s);
		pqueue_t *q = new_pqueue(); int p[40]; unsigned n = 1 + rand() % 40;
		for (unsigned i = 0; i < n; ++i) { p[i] = rand() % 100; pqueue_put(q, &p[i], p[i]); }
		int last = 1000;
		while (!pqueue_empty(q)) { int v = *(int*)pqueue_pop_front(q); if (v > last) { printf("%d popped after %d\n", v, last); return 1; } last = v; }
		del_pqueue(q);
	}
	return 0;
}
'''),
 dict(id="c18-deq-full", property="C18", needs="pushes at the left end after pops at the right end have emptied a block reached through the left end of a full block",
      breaks="a block added at the left takes over the free space of the old end, so elements of the wrong sizes overlap the block header",
      edits=[("ir/adt/deq.c", "\tif (left_end == deq->right_end && left_end->r == left_end->l) {", "\tif (left_end == deq->right_end && left_end->r <= left_end->l + sizeof(void*)) {")],
      demo=r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include "pdeq.h"
#define MAX 4000
int main(void)
{
	static uintptr_t m[2 * MAX];
	for (unsigned s = 0; s < 400; ++s) {
		srand(s);
		deq_t q; deq_init(&q); unsigned l = MAX, r = MAX; uintptr_t next = 1;
		for (unsigned i = 0; i < 3000; ++i) {
			unsigned k = rand() % 4;
			if (rand() % 20 == 0 && s % 2) { while (r - l > 1) { if (rand() % 2) { if ((uintptr_t)deq_pop_pointer_left(void, &q) != m[l]) return 1; ++l; } else { if ((uintptr_t)deq_pop_pointer_right(void, &q) != m[r - 1]) return 1; --r; } } }
			if (k == 0 && l > 0)          { m[--l] = next; deq_push_pointer_left(&q, (void*)next++); }
			if (k == 1 && r < 2 * MAX)    { m[r++] = next; deq_push_pointer_right(&q, (void*)next++); }
			if (k == 2 && l < r)          { if ((uintptr_t)deq_pop_pointer_left(void, &q) != m[l]) { printf("left %u\n", i); return 1; } ++l; }
			if (k == 3 && l < r)          { if ((uintptr_t)deq_pop_pointer_right(void, &q) != m[r - 1]) { printf("right %u\n", i); return 1; } --r; }
			if (deq_empty(&q) != (l == r)) { printf("empty %u\n", i); return 1; }
		}
	}
	return 0;
}
'''),
 dict(id="c18-deq-link", property="C18", needs="a deque of several blocks emptied from the left and then used from the right",
      breaks="the new left end keeps its link to the released block",
      edits=[("ir/adt/deq.c", "\t\tdeq->left_end = next_right;\n\t\tnext_right->next_left = NULL;\n", "\t\tdeq->left_end = next_right;\n\t\tif (next_right != deq->right_end)\n\t\t\tnext_right->next_left = NULL;\n")],
      demo=r'''
#include <stdio.h>
#include <stdint.h>
#include "pdeq.h"
int main(void)
{
	for (unsigned n = 1; n < 900; ++n) {
		deq_t q; deq_init(&q);
		for (uintptr_t i = 0; i < n; ++i) deq_push_pointer_right(&q, (void*)i);
		for (uintptr_t i = 0; i + 1 < n; ++i) if ((uintptr_t)deq_pop_pointer_left(void, &q) != i) { printf("left %u\n", n); return 1; }
		if (deq_get_left_end_block(&q)->next_left != NULL) { printf("released block still linked, %u\n", n); return 1; }
		if ((uintptr_t)deq_pop_pointer_right(void, &q) != n - 1 || !deq_empty(&q)) { printf("right %u\n", n); return 1; }
	}
	return 0;
}
'''),
]
