/* mempool over the real slab cache: histories of OPS alloc/free over an arena
 * that may fail. MEM: the objects; otherwise: reuse and accounting. */
#include "vp.h"
#include "env_slab.h"
#include "mempool.h"
#ifdef MEM
#define A_MEM(c, m) VP_ASSERT(c, m)
#define A_ACC(c, m) ((void)0)
#else
#define A_MEM(c, m) ((void)0)
#define A_ACC(c, m) VP_ASSERT(c, m)
#endif
#ifndef OBJMIN
#define OBJMIN 8
#endif
#define MAXO 96
#define SLABSZ (SLAB_MIN_ORDER0_SIZE << ORDER)

static char *o[MAXO + 1];	/* live objects by address */
static int n;
static struct mempool pool;
static uint32_t objsize, objcount;

static char salt;	/* any */

static char
tag(const void *p)
{
	return (char)((uintptr_t)p * 5 + salt);
}

static char *
slab_base(const char *p)
{
	return (char *)((uintptr_t)p & ~((uintptr_t)SLABSZ - 1));
}

static int
live_in(const char *slab)
{
	int k = 0;
	for (int i = 0; i < n; i++)
		k += slab_base(o[i]) == slab;
	return k;
}

static uint32_t
slabs(void)
{
	return (uint32_t)(mempool_total(&pool) / SLABSZ);
}

/** Allocate one object; false if refused. */
static bool
alloc_one(void)
{
	uint32_t s0 = slabs();
	int f0 = env_failed;
	char *p = (char *)mempool_alloc(&pool);
	if (p == NULL) {
		A_ACC((uint32_t)n == s0 * objcount, "fails only if no slab has room");
		A_ACC(env_failed > f0 && slabs() == s0, "fails only if there are no more slabs");
		VP_WITNESS("refused");
		return false;
	}
	A_MEM(((uintptr_t)p & ((objsize & -objsize) - 1)) == 0, "objects are aligned as their size is");
	int k = env_slab_of(p);
	A_MEM(k >= 0 && env_mapped[k] && slab_base(p) == slab_base(p + objsize - 1), "the object lies within one slab");
	A_MEM(p - slab_base(p) >= (ptrdiff_t)mslab_sizeof(), "the object does not overlap the slab header");
	int j = n;
	while (j > 0 && o[j - 1] > p) {
		o[j] = o[j - 1];
		j--;
	}
	o[j] = p;
	n++;
	A_MEM(j == 0 || o[j - 1] + objsize <= p, "objects do not overlap");
	A_MEM(j == n - 1 || p + objsize <= o[j + 1], "objects do not overlap");
	VP_ASSUME(n <= MAXO);
	for (uint32_t i = 0; i < objsize; i++)
		p[i] = tag(p);
	uint32_t s1 = slabs();
	/* live objects before the allocation */
	bool first = live_in(slab_base(p)) == 1;
	if (s1 != s0) {
		A_ACC(s1 == s0 + 1, "one slab is taken at a time");
		for (int i = 0; i < n; i++)
			if (slab_base(o[i]) != slab_base(p)) {
				uint32_t used = live_in(slab_base(o[i]));
				A_ACC(objcount - used < (objcount / 8 > 1 ? objcount / 8 : 1),
				      "a new slab is taken only if the others are (almost) full");
			}
		VP_WITNESS("new-slab");
	} else if (!first) {
		for (int i = 0; i < n && o[i] < slab_base(p); i++) {
			uint32_t used = live_in(slab_base(o[i]));
			A_ACC(objcount - used < (objcount / 8 > 1 ? objcount / 8 : 1),
			      "the slab with the lowest address that has room is filled first");
		}
		VP_WITNESS("reused");
	}
	return true;
}

static void
free_one(int j)
{
	char *p = o[j];
	for (uint32_t i = 0; i < objsize; i++)
		A_MEM(p[i] == tag(p), "contents stay intact");
	mempool_free(&pool, p);
	n--;
	for (; j < n; j++)
		o[j] = o[j + 1];
	o[n] = NULL;
	VP_WITNESS("free");
}

static void
check(void)
{
	A_ACC(mempool_used(&pool) == (size_t)n * objsize, "used is the size of the live objects");
	A_ACC(mempool_count(&pool) == (size_t)n, "count is the number of live objects");
	A_ACC(slab_cache_used(&env_cache) == mempool_total(&pool), "total is what was taken from the slab cache");
	uint32_t busy = 0;
	for (int i = 0; i < n; i++)
		busy += i == 0 || slab_base(o[i]) != slab_base(o[i - 1]);
	A_ACC(slabs() <= busy + 1, "at most one empty slab is kept");
	struct mempool_stats st;
	mempool_stats(&pool, &st);
	A_ACC(st.objsize == objsize && st.objcount == (size_t)n && st.slabsize == SLABSZ && st.slabcount == slabs() &&
	      st.totals.used == mempool_used(&pool) && st.totals.total == slabs() * (uint64_t)(SLABSZ - mslab_sizeof()), "statistics");
}

int
main(void)
{
	env_slab_init(1 << 20);
	salt = (char)vp_range(0, 255);
	objsize = (uint32_t)vp_concretize(vp_range(OBJMIN, OBJMAX));
	memset(&pool, 0xa5, sizeof(pool));
	mempool_create_with_order(&pool, &env_cache, objsize, ORDER);
	objcount = (SLABSZ - mslab_sizeof()) / objsize;
	check();
	for (int i = 0; i < OPS; i++) {
		vp_merge();
#ifdef BURST
		uint64_t op = vp_choose(5);
		if (op == 0) {
			alloc_one();
		} else if (op == 1) {
			for (uint32_t k = vp_choose(2) ? objcount : objcount - 1; k > 0; k--)
				if (!alloc_one())
					break;
		} else if (op == 2) {
			VP_ASSUME(n > 0);
			uint64_t w = vp_choose(3);
			free_one(w == 0 ? 0 : w == 1 ? n - 1 : n / 2);
		} else if (op == 3) {
			/* free a run of objects, from the start or from the end */
			uint32_t k = vp_choose(2) ? objcount : objcount / 8;
			bool first = vp_bool();
			VP_ASSUME(n > 0);
			for (; k > 0 && n > 0; k--)
				free_one(first ? 0 : n - 1);
		} else {
			/* free every other object */
			VP_ASSUME(n > 1);
			for (int k = n - 1; k >= 0; k -= 2)
				free_one(k);
		}
#else
		uint64_t op = vp_choose(1 + n);
		if (op == 0)
			alloc_one();
		else
			free_one((int)op - 1);
#endif
		check();
		env_failed = env_nmaps = env_nunmaps = 0;
	}
	if (vp_bool()) {
		bool up = vp_bool();
		while (n > 0)
			free_one(up ? 0 : n - 1);
		check();
		A_ACC(slabs() <= 1, "when everything is freed, at most one slab is kept");
	} else {
		for (int j = 0; j < n; j++)
			for (uint32_t i = 0; i < objsize; i++)
				A_MEM(o[j][i] == tag(o[j]), "contents stay intact");
	}
	VP_ASSERT(mempool_is_initialized(&pool), "initialized");
	mempool_destroy(&pool);
	VP_ASSERT(!mempool_is_initialized(&pool), "destroyed");
	A_ACC(slab_cache_used(&env_cache) == 0, "destroy returns every slab to the cache");
	slab_cache_check(&env_cache);
	VP_WITNESS("end");
	return 0;
}
