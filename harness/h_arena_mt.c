/* slab_arena shared by NT threads: every interleaving. */
#include "vp.h"
#include <unistd.h>
#include <pmatomic.h>
#include <sys/mman.h>
#include "quota.h"
#include "slab_arena.h"
#include "env_mmap.h"
#ifndef NT
#define NT 2
#endif
#ifndef OPS
#define OPS 2
#endif
#define SLAB 65536ul
#define MAXS 6
static struct quota q;
static struct slab_arena a;
static char *slab[MAXS];	/* every slab ever seen */
static int owner[MAXS], nslab;	/* t + 1, or 0 when returned */
static uint64_t limit;
static int fails, want;

static int tids[NT];
static void
worker(void *arg)
{
	int me = *(int *)arg;
	for (int i = 0; i < OPS; i++) {
		int mine = -1;
		for (int k = 0; k < nslab; k++)
			if (owner[k] == me + 1)
				mine = k;
		if (mine >= 0 && vp_bool()) {
			owner[mine] = 0;
			slab_unmap(&a, slab[mine]);
		} else {
			char *p = (char *)slab_map(&a);
			if (p == NULL) {
				fails++;
			} else {
				VP_ASSERT(((uintptr_t)p & (SLAB - 1)) == 0, "aligned");
				VP_ASSERT(vp_accessible(p, SLAB), "mapped");
				int k;
				for (k = 0; k < nslab && slab[k] != p; k++)
					;
				if (k == nslab) {
					VP_ASSUME(nslab < MAXS);
					slab[nslab++] = p;
				} else {
					VP_ASSERT(owner[k] == 0, "a slab has one owner at a time");
				}
				owner[k] = me + 1;
				*(uint64_t *)p = 0x1111111111110000ull;
			}
		}
		VP_ASSERT(quota_used(&q) <= quota_total(&q), "the quota limit holds");
		vp_merge();
	}
}

int
main(void)
{
	limit = vp_range(0, NT * OPS + 1);
	memset(&q, 0xa5, sizeof(q));
	quota_init(&q, limit * SLAB);
	env_fail_left = FAILS;
	uint64_t pre = PREALLOC < limit ? PREALLOC : limit;
	(void)vp_concretize(pre);
	memset(&a, 0xa5, sizeof(a));
	if (slab_arena_create(&a, &q, PREALLOC * SLAB, SLAB, SLAB_ARENA_PRIVATE) != 0)
		return 0;
	vp_shared(&q, sizeof(q));
	vp_shared(&a, sizeof(a));
	for (int t = 0; t < NT; t++) {
		tids[t] = t;
		vp_spawn(worker, &tids[t]);
	}
	vp_join();
	VP_ASSERT(quota_used(&q) == (uint64_t)nslab * SLAB, "every distinct slab is charged once");
	VP_ASSERT((uint64_t)nslab <= limit, "the limit holds");
	if (fails > env_failed)
		VP_ASSERT(limit < NT * OPS, "fails only out of quota or memory");
	for (int k = 0; k < nslab; k++)
		if (owner[k] != 0)
			slab_unmap(&a, slab[k]);
	slab_arena_destroy(&a);
	VP_ASSERT(env_mapped_bytes() == 0, "destroy unmaps everything");
	vp_log("nslab", nslab);
	VP_WITNESS("end");
	return 0;
}
