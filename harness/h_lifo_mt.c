/* lf_lifo shared by NT threads: every interleaving of their memory accesses. */
#include "vp.h"
#include <pmatomic.h>
#include "lf_lifo.h"
#ifndef NT
#define NT 2
#endif
#ifndef OPS0
#define OPS0 1
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef NE
#define NE 3
#endif
#ifndef INIT
#define INIT 2
#endif
static struct lf_lifo head;
static char *el[NE];
static int owner[NE];	/* 0 in the stack, t + 1 held by a thread */
/* pushes that have returned, pops that have started and may have taken an element; the least difference seen by a pop in progress */
static int pushed, started;
static int least[NT];
static bool popping[NT];
static void
moment(void)
{
	for (int t = 0; t < NT; t++)
		/* not counting that pop itself */
		if (popping[t] && INIT + pushed - (started - 1) < least[t])
			least[t] = INIT + pushed - (started - 1);
}

static int
idx(void *p)
{
	for (int i = 0; i < NE; i++)
		if (p == el[i])
			return i;
	return -1;
}

struct thr { int id, ops; };
static struct thr th[NT];

static void
worker(void *arg)
{
	struct thr *t = (struct thr *)arg;
	for (int i = 0; i < t->ops; i++) {
		int mine = -1;
		uint64_t op = vp_choose(2);
		if (op == 1) {
			/* give back one of the elements this thread holds: any of them */
			int cnt = 0;
			for (int k = 0; k < NE; k++)
				cnt += owner[k] == t->id + 1;
			if (cnt == 0)
				continue;
			int w = (int)vp_choose(cnt);
			for (int k = 0; k < NE; k++)
				if (owner[k] == t->id + 1 && w-- == 0)
					mine = k;
			owner[mine] = 0;
			lf_lifo_push(&head, el[mine]);
			pushed++;
			moment();
		} else {
			popping[t->id] = true;
			least[t->id] = NE;
			started++;
			moment();
			void *p = lf_lifo_pop(&head);
			popping[t->id] = false;
			if (p == NULL) {
				VP_ASSERT(least[t->id] <= 0, "pop is NULL only if the stack could be empty at some moment of the call");
				VP_WITNESS("null");
				started--;
			} else {
				int k = idx(p);
				VP_ASSERT(k >= 0, "pop returns an element that was pushed");
				VP_ASSERT(owner[k] == 0, "no element is handed out twice");
				owner[k] = t->id + 1;
				/* the holder may write anything into it */
				*(void **)el[k] = (void *)(uintptr_t)0x11110000;
			}
		}
		vp_merge();
	}
}

int
main(void)
{
	for (int i = 0; i < NE; i++)
		el[i] = vp_alloc(65536, 65536, 1);
	memset(&head, 0xa5, sizeof(head));
	lf_lifo_init(&head);
	head.next = (void *)vp_range(0, 65535);
	for (int i = 0; i < INIT; i++)
		lf_lifo_push(&head, el[i]);
	for (int i = INIT; i < NE; i++)
		owner[i] = 1 + i % NT;
	vp_shared(&head, sizeof(head));
	for (int i = 0; i < NE; i++)
		vp_shared(el[i], 8);
	for (int k = 0; k < NT; k++) {
		th[k].id = k;
		th[k].ops = k == 0 ? OPS0 : OPS;
		vp_spawn(worker, &th[k]);
	}
	vp_join();
	/* what no thread holds is still in the stack, once */
	int left = 0;
	for (int k = 0; k < NE; k++)
		left += owner[k] == 0;
	for (int i = 0; i < left; i++) {
		void *p = lf_lifo_pop(&head);
		int k = idx(p);
		VP_ASSERT(k >= 0 && owner[k] == 0, "no element is lost");
		owner[k] = 100;
		vp_log("pop", k);
	}
	VP_ASSERT(lf_lifo_pop(&head) == NULL, "no element is left twice");
	VP_WITNESS("end");
	return 0;
}
