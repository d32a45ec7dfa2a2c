/* lf_lifo_is_empty: every sequence of pushes and pops from a fresh stack. */
#include "vp.h"
#include <pmatomic.h>
#include "lf_lifo.h"
#ifndef OPS
#define OPS 6
#endif
#define NE 3
static struct lf_lifo head;
static char *el[NE];

int
main(void)
{
	int n = 0;
	for (int i = 0; i < NE; i++)
		el[i] = vp_alloc(65536, 65536, 0);
	memset(&head, 0xa5, sizeof(head));
	lf_lifo_init(&head);
	VP_ASSERT(lf_lifo_is_empty(&head), "a fresh stack is empty");
	for (int i = 0; i < OPS; i++) {
		if (vp_bool()) {
			VP_ASSUME(n < NE);
			lf_lifo_push(&head, el[n++]);
		} else if (n > 0) {
			VP_ASSERT(lf_lifo_pop(&head) == el[--n], "pops in reverse order");
		}
		VP_ASSERT(lf_lifo_is_empty(&head) == (n == 0), "is_empty tells whether pop would return NULL");
	}
	VP_WITNESS("end");
	return 0;
}
