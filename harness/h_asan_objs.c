/* ASAN build of the object allocators: any history over two allocators of a
 * kind, then perhaps a misuse that must be detected. */
#include "vp.h"
#include "env_malloc.h"
#include <unistd.h>
#include <pmatomic.h>
#include <pthread.h>
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"
#include "mempool.h"
#include "small.h"
enum { MEMPOOL, SMALL, SLAB, ARENA };
#define SKIP (WHAT == SLAB ? (size_t)((char *)slab_data((struct slab *)1) - (char *)1) : 0)
static struct quota quota;
static struct slab_arena arena[2];
static struct slab_cache cache[2];
static struct mempool pool[2];
static struct small_alloc alloc[2];
static struct { char *p; size_t size; int o; char c; } a[OPS + 1];
static int n, expect, failed;
static char salt, gen;
static size_t used[2], count[2], align[2];

static void
on_fail(const char *filename, int line, const char *func, const char *expr)
{
	(void)filename; (void)line; (void)func; (void)expr;
	VP_ASSERT(expect, "no false alarm");
	VP_WITNESS("detected");
	vp_end();
}

static int
stat_cb(const void *s, void *ctx)
{
	*(size_t *)ctx = ((const struct mempool_stats *)s)->objcount;
	return 0;
}

static void
check(void)
{
	for (int i = 0; i < n; i++)
		for (size_t k = SKIP; k < a[i].size; k += a[i].size > 64 ? a[i].size - SKIP - 1 : 1)
			VP_ASSERT(a[i].p[k] == (char)(salt + a[i].c + (char)k), "contents are kept");
	for (int o = 0; o < 2; o++) {
		if (WHAT == MEMPOOL) {
			struct mempool_stats st;
			mempool_stats(&pool[o], &st);
			VP_ASSERT(mempool_count(&pool[o]) == count[o] && mempool_used(&pool[o]) == used[o], "statistics of the pool");
			VP_ASSERT(st.objcount == count[o] && st.totals.used == used[o] && st.totals.total >= used[o], "statistics of the pool");
		} else if (WHAT == SMALL) {
			struct small_stats st;
			size_t c = 0;
			small_stats(&alloc[o], &st, stat_cb, &c);
			VP_ASSERT(st.used == used[o] && st.total >= used[o] && c == count[o], "statistics of the allocator");
		} else if (WHAT == SLAB) {
			VP_ASSERT(slab_cache_used(&cache[o]) == used[o], "statistics of the cache");
		}
	}
	if (WHAT == SMALL)
		VP_ASSERT(quota_leased(&cache[0].quota) == used[0] + used[1], "the quota is charged for what is allocated");
	VP_ASSERT(env_malloc_live == n, "every object is a block of its own");
}

static void
take_out(int k)
{
	used[a[k].o] -= a[k].size;
	count[a[k].o]--;
	for (int i = k; i < n; i++)
		a[i] = a[i + 1];
	memset(&a[n], 0, sizeof(a[n]));
	n--;
}

static void
release(int o, char *p, size_t size)
{
	if (WHAT == MEMPOOL)
		mempool_free(&pool[o], p);
	else if (WHAT == SMALL)
		smfree(&alloc[o], p, size);
	else if (WHAT == SLAB)
		slab_put(&cache[o], (struct slab *)p);
	else
		slab_unmap(&arena[o], p);
}

int
main(void)
{
	small_on_assert_failure = on_fail;
	salt = (char)vp_range(0, 255);
	memset(&quota, 0xa5, sizeof(quota));
	quota_init(&quota, LIMIT);
	float actual;
	size_t objsize[2];
	for (int o = 0; o < 2; o++) {
		memset(&arena[o], 0xa5, sizeof(arena[o]));
		slab_arena_create(&arena[o], &quota, 0, 65536 << o, 0);
		memset(&cache[o], 0xa5, sizeof(cache[o]));
		slab_cache_create(&cache[o], &arena[o]);
		if (WHAT == MEMPOOL) {
			objsize[o] = vp_concretize(vp_range(1, 24)) + (o ? 3000 + 1096 * vp_choose(2) - 24 : 0);
			memset(&pool[o], 0xa5, sizeof(pool[o]));
			mempool_create(&pool[o], &cache[0], objsize[o]);
			align[o] = objsize[o] & -objsize[o];
		} else if (WHAT == SMALL) {
			memset(&alloc[o], 0xa5, sizeof(alloc[o]));
			small_alloc_create(&alloc[o], &cache[0], 8, 8, 1.05f, &actual);
			align[o] = 4;
		} else {
			align[o] = WHAT == SLAB ? 16 : 8;
		}
	}
	for (int i = 0; i < OPS; i++) {
		vp_merge();
		if (vp_bool()) {
			int o = (int)vp_choose(2);
			char *p;
			size_t size;
			if (WHAT == MEMPOOL) {
				size = objsize[o];
				p = (char *)mempool_alloc(&pool[o]);
			} else if (WHAT == SMALL) {
				static const uint32_t sizes[] = {1, 8, 37, 1100, 500000};
				size = sizes[vp_choose(5)];
				p = (char *)smalloc(&alloc[o], size);
				VP_ASSERT((p == NULL) == (used[0] + used[1] + size > LIMIT), "refused if and only if out of quota");
			} else if (WHAT == SLAB) {
				static const uint32_t sizes[] = {0, 4000, 4096, 70000};
				size_t want = sizes[vp_choose(4)];
				struct slab *s = slab_get(&cache[o], want);
				VP_ASSERT(slab_capacity(s) >= want, "as big as asked for");
				VP_ASSERT(s->size == slab_real_size(&cache[o], want), "the size is as told");
				size = s->size;
				p = (char *)s;
			} else {
				size = arena[o].slab_size;
				p = (char *)slab_map(&arena[o]);
			}
			if (p == NULL) {
				VP_WITNESS("refused");
				continue;
			}
			VP_ASSERT(((uintptr_t)p & (align[o] - 1)) == 0, "aligned");
			VP_ASSERT(((uintptr_t)p & (2 * align[o] - 1)) != 0, "aligned no more than promised");
			VP_ASSERT(vp_is_poisoned(p + size), "what follows is poisoned");
			for (char *q = (char *)((uintptr_t)p & ~7ull) - 1; q > p - 12; q--)
				VP_ASSERT(vp_is_poisoned(q), "what precedes is poisoned");
			for (size_t k = SKIP; k < size; k += size > 64 ? size - SKIP - 1 : 1)
				p[k] = (char)(salt + gen + (char)k);
			a[n].p = p;
			a[n].size = size;
			a[n].o = o;
			a[n].c = gen++;
			n++;
			used[o] += size;
			count[o]++;
		} else {
			VP_ASSUME(n > 0);
			int k = (int)vp_choose(n);
			uint64_t how = vp_choose(WHAT == SMALL ? 3 : 2);
			if (how == 0) {
				release(a[k].o, a[k].p, a[k].size);
				take_out(k);
				VP_WITNESS("freed");
			} else {
				expect = 1;
				release(how == 1 ? !a[k].o : a[k].o, a[k].p, how == 2 ? a[k].size - 1 : a[k].size);
				VP_ASSERT(0, "an object given to another allocator or freed with another size is detected");
			}
		}
		check();
	}
	while (n > 0) {
		release(a[n - 1].o, a[n - 1].p, a[n - 1].size);
		take_out(n - 1);
	}
	check();
	for (int o = 0; o < 2; o++) {
		if (WHAT == MEMPOOL) {
			mempool_destroy(&pool[o]);
			VP_ASSERT(!mempool_is_initialized(&pool[o]), "destroyed");
		} else if (WHAT == SMALL) {
			small_alloc_destroy(&alloc[o]);
		}
		slab_cache_destroy(&cache[o]);
		slab_arena_destroy(&arena[o]);
	}
	VP_ASSERT(quota_used(&quota) == 0, "the quota gets everything back");
	VP_WITNESS("end");
	return 0;
}
