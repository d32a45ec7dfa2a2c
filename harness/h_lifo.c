/* lf_lifo and lifo used by one thread: every sequence of OPS operations, from
 * any value of the ABA counter. */
#include "vp.h"
#include <pmatomic.h>
#include "lf_lifo.h"
#include "lifo.h"
#ifndef OPS
#define OPS 6
#endif
#define NE 3
static struct lf_lifo head;
static struct lifo plain;
static char *el[NE];
static struct { void *next; char pad[24]; } pe[NE];

int
main(void)
{
	int stk[NE], n = 0;
	bool out[NE];
	for (int i = 0; i < NE; i++) {
		el[i] = vp_alloc(65536, 65536, 0);
		out[i] = true;
	}
	memset(&head, 0xa5, sizeof(head));
	lf_lifo_init(&head);
	memset(&plain, 0xa5, sizeof(plain));
	lifo_init(&plain);
	/* advance the counter to an arbitrary value: it is the low 16 bits of the head */
	head.next = (void *)vp_range(0, 65535);
	for (int i = 0; i < OPS; i++) {
		uint64_t op = vp_choose(NE + 1);
		if (op < NE) {
			VP_ASSUME(out[op]);
			out[op] = false;
			*(uint64_t *)el[op] = vp_u64();
			lf_lifo_push(&head, el[op]);
			lifo_push(&plain, &pe[op]);
			stk[n++] = (int)op;
		} else {
			void *p = lf_lifo_pop(&head), *q = lifo_pop(&plain);
			if (n == 0) {
				VP_ASSERT(p == NULL && q == NULL, "pop of an empty stack is NULL");
				VP_WITNESS("empty");
			} else {
				int x = stk[--n];
				stk[n] = 0;
				VP_ASSERT(p == el[x], "lf_lifo pops the last pushed element");
				VP_ASSERT(q == &pe[x], "lifo pops the last pushed element");
				out[x] = true;
				VP_WITNESS("popped");
			}
		}
		VP_ASSERT(lifo_is_empty(&plain) == (n == 0), "lifo_is_empty");
		VP_ASSERT(lifo_peek(&plain) == (n ? (void *)&pe[stk[n - 1]] : NULL), "lifo_peek is the top");
	}
	VP_WITNESS("end");
	return 0;
}
