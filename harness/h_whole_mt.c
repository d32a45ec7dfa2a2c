/* Threads, each with a slab cache and a region of its own, on one arena and one
 * quota: every interleaving of the accesses to the arena and the quota. */
#include "vp.h"
#include <unistd.h>
#include <pmatomic.h>
#include <sys/mman.h>
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"
#include "region.h"
#include "lsregion.h"
#include "env_mmap.h"
#include "env_malloc.h"
#ifndef NT
#define NT 2
#endif
#define SLAB 65536ul
static struct quota quota;
static struct slab_arena arena;
static struct slab_cache cache[NT];
static struct region region[NT];
static struct lsregion ls[NT];
static int tids[NT];
static uint64_t limit, nbig;
/* what every thread holds */
static struct { char *p; size_t size; } o[NT][OPS + 1];
static int n[NT];
static int fails;

static bool
intact(int t)
{
	for (int i = 0; i < n[t]; i++)
		if (o[t][i].p[0] != 'a' + t || o[t][i].p[o[t][i].size - 1] != 'a' + t)
			return false;
	return true;
}

static void
worker(void *arg)
{
	int t = *(int *)arg;
	for (int i = 0; i < OPS; i++) {
		size_t size = 40000;
		char *p = NULL;
		uint64_t op = vp_choose(n[t] > 0 ? 4 : 3);
		if (op == 0) {
			p = (char *)region_alloc(&region[t], size);
		} else if (op == 1) {
			size = 70000;
			p = (char *)region_alloc(&region[t], size);
		} else if (op == 2) {
			p = (char *)lsregion_alloc(&ls[t], size, i + 1);
		} else {
			VP_ASSERT(intact(t), "the other threads do not touch what a thread holds");
			region_free(&region[t]);
			lsregion_gc(&ls[t], i + 1);
			n[t] = 0;
			memset(o[t], 0, sizeof(o[t]));
			VP_WITNESS("freed");
		}
		if (p != NULL) {
			VP_ASSERT(vp_accessible(p, size), "the memory exists");
			for (int k = 0; k < NT; k++)
				for (int j = 0; j < n[k]; j++)
					VP_ASSERT(p + size <= o[k][j].p || o[k][j].p + o[k][j].size <= p, "memory is given to one thread at a time");
			o[t][n[t]].p = p;
			o[t][n[t]++].size = size;
			p[0] = p[size - 1] = 'a' + t;
			VP_WITNESS("allocated");
		} else if (op < 3) {
			fails++;
			VP_WITNESS("refused");
		}
		VP_ASSERT(quota_used(&quota) <= quota_total(&quota), "the limit holds");
		vp_merge();
	}
}

int
main(void)
{
	limit = vp_range(0, NT * OPS * 72) * 1024;
	memset(&quota, 0xa5, sizeof(quota));
	quota_init(&quota, limit);
	env_fail_left = FAILS;
	memset(&arena, 0xa5, sizeof(arena));
	if (slab_arena_create(&arena, &quota, 0, SLAB, SLAB_ARENA_PRIVATE) != 0)
		return 0;
	for (int t = 0; t < NT; t++) {
		memset(&cache[t], 0xa5, sizeof(cache[t]));
		slab_cache_create(&cache[t], &arena);
		memset(&region[t], 0xa5, sizeof(region[t]));
		region_create(&region[t], &cache[t]);
		memset(&ls[t], 0xa5, sizeof(ls[t]));
		lsregion_create(&ls[t], &arena);
	}
	vp_shared(&quota, sizeof(quota));
	vp_shared(&arena, sizeof(arena));
	for (int t = 0; t < NT; t++) {
		tids[t] = t;
		vp_spawn(worker, &tids[t]);
	}
	vp_join();
	if (fails > 0)
		VP_ASSERT((env_failed > 0) | (limit < NT * OPS * 72 * 1024), "refused only out of memory or quota");
	for (int t = 0; t < NT; t++) {
		VP_ASSERT(intact(t), "the other threads do not touch what a thread holds");
		region_destroy(&region[t]);
		lsregion_destroy(&ls[t]);
		slab_cache_check(&cache[t]);
		slab_cache_destroy(&cache[t]);
	}
	VP_ASSERT(env_malloc_live == 0, "every large block is returned");
	VP_ASSERT(quota_used(&quota) == env_mapped_bytes(), "only the slabs of the arena stay charged");
	slab_arena_destroy(&arena);
	VP_ASSERT(env_mapped_bytes() == 0, "every page is unmapped");
	VP_WITNESS("end");
	return 0;
}
