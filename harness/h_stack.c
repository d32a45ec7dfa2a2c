/* lifo: OPS operations on NE elements of any order and contents, against an array. */
#include "vp.h"
#include "lifo.h"
static void *e[NE][2];
static uint64_t st[NE + 1];	/* the elements pushed */
static int n;

int
main(void)
{
	static struct lifo head;
	void *b[NE];
	head.next = (void *)vp_u64();
	for (int i = 0; i < NE; i++) {
		e[i][0] = (void *)vp_u64();
		b[i] = e[i][1] = (void *)vp_u64();
	}
	memset(&head, 0xa5, sizeof(head));
	lifo_init(&head);
	for (int op = 0; op < OPS; op++) {
		VP_ASSERT(lifo_is_empty(&head) == (n == 0), "empty");
		VP_ASSERT(lifo_peek(&head) == (n > 0 ? (void *)e[st[n - 1]] : NULL), "peek shows the last pushed");
		switch (vp_choose(3)) {
		case 0: {
			VP_ASSUME(n < NE);
			uint64_t el = vp_range(0, NE - 1), in = 0;
			for (int i = 0; i < n; i++)
				in |= st[i] == el;
			VP_ASSUME(!in);
			lifo_push(&head, e[el]);
			st[n++] = el;
			break;
		}
		case 1: {
			void *p = lifo_pop(&head);
			VP_ASSERT(p == (n > 0 ? (void *)e[st[n - 1]] : NULL), "pop takes the last pushed");
			if (n > 0)
				st[--n] = 0;
			VP_WITNESS("popped");
			break;
		}
		default:
			VP_ASSUME(n > 0);
			memset(&head, 0xa5, sizeof(head));
			lifo_init(&head);
			while (n > 0)
				st[--n] = 0;
		}
	}
	for (int i = 0; i < NE; i++)
		VP_ASSERT(e[i][1] == b[i], "only the first word of an element is used");
	VP_WITNESS("end");
	return 0;
}
