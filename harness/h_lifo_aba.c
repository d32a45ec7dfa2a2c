/* lf_lifo: one pop interrupted anywhere by a long run of operations of another
 * thread that puts the same element back on top, any number of times up to K. */
#include "vp.h"
#include <pmatomic.h>
#include "lf_lifo.h"
static struct lf_lifo head;
static char *el[3];
static bool held[3];

static void *
pop(void)
{
	void *p = lf_lifo_pop(&head);
	for (int i = 0; i < 3; i++) {
		if (p != el[i])
			continue;
		VP_ASSERT(!held[i], "a pop never returns what is held already");
		held[i] = true;
		return p;
	}
	VP_ASSERT(p == NULL, "a pop returns an element that was pushed");
	return NULL;
}

static void
one_pop(void *arg)
{
	(void)arg;
	if (pop() != NULL)
		VP_WITNESS("popped");
}

static void
interfere(void *arg)
{
	(void)arg;
	void *a = pop();
	if (a != el[0])
		return;	/* the other pop was first */
	if (pop() != el[1])
		return;
	for (int i = 0; i < K; i++) {
		held[0] = false;
		lf_lifo_push(&head, a);
		vp_merge();
		if (vp_bool())
			break;
		if (pop() != a)
			return;
		vp_merge();
	}
	VP_WITNESS("interfered");
	while (pop() != NULL)
		;
}

int
main(void)
{
	for (int i = 0; i < 3; i++)
		el[i] = vp_alloc(65536, 65536, 1);
	memset(&head, 0xa5, sizeof(head));
	lf_lifo_init(&head);
	head.next = (void *)(uintptr_t)(vp_bool() ? 0 : 65536 - 5);
	for (int i = 2; i >= 0; i--)
		lf_lifo_push(&head, el[i]);
	vp_shared(&head, sizeof(head));
	for (int i = 0; i < 3; i++)
		vp_shared(el[i], 8);
	vp_spawn(one_pop, NULL);
	vp_spawn(interfere, NULL);
	vp_join();
	VP_WITNESS("end");
	return 0;
}
