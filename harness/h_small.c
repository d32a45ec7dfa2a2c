/* small allocator over the real mempool and slab cache: histories of smalloc/
 * smfree with symbolic sizes over an arena, malloc and quota that may fail.
 * MEM: the objects; otherwise: accounting, pool choice, waste. */
#include "vp.h"
#ifdef ENV_MALLOC
#include "env_malloc.h"
#endif
#include "env_slab.h"
#include "small.h"
#ifdef MEM
#define A_MEM(c, m) VP_ASSERT(c, m)
#define A_ACC(c, m) ((void)0)
#else
#define A_MEM(c, m) ((void)0)
#define A_ACC(c, m) VP_ASSERT(c, m)
#endif
#ifndef GRAN
#define GRAN 8
#endif
#ifndef OBJMIN
#define OBJMIN 16
#endif
#ifndef FACTOR
#define FACTOR 1.5f
#endif
#ifndef MAXSIZE
#define MAXSIZE (1ull << 20)
#endif
#ifndef MAXO
#define MAXO 48
#endif

/* an object of the size class (prev, fit], or a large one of the size */
struct obj { char *p; uint64_t size; uint32_t real, fit, prev; bool large; };
static struct obj o[MAXO + 1];
static int n;
static struct small_alloc alloc;
static uint64_t salt;
static uint32_t npools;

static uint64_t
tag(const void *p)
{
	return salt + (uintptr_t)p * 3;
}

/** Size of the objects of the pool the address belongs to. */
static struct mempool *
pool_of(char *p)
{
	for (uint32_t i = 0; i < npools; i++) {
		struct mempool *m = &alloc.small_mempool_cache[i].pool;
		struct rlist *l;
		for (l = m->slabs.slabs.next; l != &m->slabs.slabs; l = l->next) {
			char *s = (char *)rlist_entry(l, struct slab, next_in_list);
			if (p >= s && p < s + slab_order_size(&env_cache, m->slab_order))
				return m;
		}
	}
	return NULL;
}

/** The smallest pool that holds the size. */
static uint32_t
best_fit(uint64_t size)
{
	for (uint32_t i = 0; i < npools; i++)
		if (size <= alloc.small_mempool_cache[i].pool.objsize)
			return alloc.small_mempool_cache[i].pool.objsize;
	return 0;
}

static uint32_t
below(uint32_t fit)
{
	uint32_t prev = 0;
	for (uint32_t i = 0; i < npools && alloc.small_mempool_cache[i].pool.objsize < fit; i++)
		prev = alloc.small_mempool_cache[i].pool.objsize;
	return prev;
}

static bool
alloc_one(uint64_t size)
{
	int f0 = env_failed;
#ifdef ENV_MALLOC
	int m0 = env_malloc_failed;
#endif
	uint64_t used0 = slab_cache_used(&env_cache), q0 = quota_used(&env_quota), qt = quota_total(&env_quota);
	uint32_t max = alloc.small_mempool_cache[npools - 1].pool.objsize;
	bool large = size > max;
	struct small_alloc_info info;
	small_alloc_info(&alloc, NULL, size, &info);
	A_ACC(info.is_large == large && info.real_size >= size, "information on an allocation");
	char *p = (char *)smalloc(&alloc, size);
	if (p == NULL) {
		if (large) {
			bool fits = size <= qt && (size + slab_sizeof() + 1023) / 1024 * 1024 <= qt - q0;
#ifdef ENV_MALLOC
			A_MEM(env_malloc_failed > m0 || !fits, "a large object is refused only out of memory or quota");
#else
			A_MEM(!fits, "a large object is refused only out of quota");
#endif
			VP_WITNESS("large-refused");
		} else {
			A_MEM(env_failed > f0, "an object is refused only if the arena is exhausted");
			VP_WITNESS("refused");
		}
		A_ACC(slab_cache_used(&env_cache) <= used0, "a refused allocation takes no memory");
		A_ACC(quota_used(&env_quota) == q0, "a refused allocation leaves the quota as it was");
		return false;
	}
	VP_ASSUME(n < MAXO);
	struct obj x;
	x.p = p;
	x.size = size;
	x.large = large;
	A_MEM(vp_accessible(p, size), "the whole object is memory");
	if (large) {
		x.real = x.fit = x.prev = 0;
		A_MEM(env_slab_of(p) < 0, "a large object does not overlap slabs");
		A_ACC(slab_cache_used(&env_cache) == used0 + size + slab_sizeof(), "a large object uses its size and a header");
		VP_WITNESS("large");
	} else {
		struct mempool *m = pool_of(p);
		A_MEM(m != NULL && env_slab_of(p) >= 0, "the object is in a slab of one of the pools");
		x.real = m->objsize;
		x.fit = (uint32_t)vp_concretize(best_fit(size));
		x.prev = below(x.fit);
		x.size = 0;
		A_ACC(env_failed > f0 || info.real_size == x.real, "information tells the size that is used up");
		A_MEM(x.real >= size, "the pool's objects hold the size");
		char *s = (char *)((uintptr_t)p & ~((uintptr_t)slab_order_size(&env_cache, m->slab_order) - 1));
		A_MEM(p - s >= (ptrdiff_t)mslab_sizeof() && p + x.real <= s + slab_order_size(&env_cache, m->slab_order),
		      "the object lies within the slab, behind its header");
		A_MEM(((uintptr_t)p & (GRAN - 1)) == 0, "objects are aligned to the granularity");
		A_MEM(x.real % GRAN == 0, "objects take whole granules");
		if (x.real != x.fit)
			VP_WITNESS("shared-pool");
		else
			VP_WITNESS("own-pool");
	}
	int j = n;
	while (j > 0 && !large && (o[j - 1].large || o[j - 1].p > p)) {
		o[j] = o[j - 1];
		j--;
	}
	o[j] = x;
	n++;
	if (!large) {
		A_MEM(j == 0 || o[j - 1].large || o[j - 1].p + o[j - 1].fit <= p, "objects do not overlap");
		A_MEM(j == n - 1 || o[j + 1].large || p + x.fit <= o[j + 1].p, "objects do not overlap");
	}
	uint64_t t = tag(p);
	memcpy(p, &t, 8);
	if (x.prev >= 8)
		memcpy(p + x.prev - 8, &t, 8);
	return true;
}

static void
free_one(int j)
{
	uint64_t t = tag(o[j].p);
	A_MEM(memcmp(o[j].p, &t, 8) == 0, "contents stay intact");
	if (o[j].prev >= 8)
		A_MEM(memcmp(o[j].p + o[j].prev - 8, &t, 8) == 0, "contents stay intact");
	uint64_t size = o[j].size;
	if (!o[j].large)	/* any of the class: what was asked for */
		size = vp_range(o[j].prev + 1, o[j].fit);
	smfree(&alloc, o[j].p, size);
	n--;
	for (; j < n; j++)
		o[j] = o[j + 1];
	memset(&o[n], 0, sizeof(o[n]));
	VP_WITNESS("free");
}

static int
stats_cb(const void *st, void *arg)
{
	struct mempool_stats *s = (struct mempool_stats *)st;
	uint64_t *c = (uint64_t *)arg;
	uint64_t live = 0;
	for (int i = 0; i < n; i++)
		live += !o[i].large && o[i].real == s->objsize;
	A_ACC(s->objcount == live, "statistics count the live objects of every pool");
	c[0]++;
	c[1] += s->slabcount * s->slabsize;
	return 0;
}

static void
check(void)
{
	struct small_stats st;
	uint64_t c[2] = {0, 0};
	small_stats(&alloc, &st, stats_cb, c);
	A_ACC(c[0] == npools, "statistics cover every pool");
	uint64_t used = 0, large = 0;
	uint64_t lcharge = 0;
	for (int i = 0; i < n; i++) {
		used += o[i].real;
		if (o[i].large) {
			large += o[i].size + slab_sizeof();
			lcharge += (o[i].size + slab_sizeof() + 1023) / 1024 * 1024;
		}
	}
	A_ACC(st.used == used, "used is the memory of the live objects");
	A_ACC(st.used <= st.total, "used memory is part of the total");
	A_ACC(slab_cache_used(&env_cache) == c[1] + large, "everything taken from the slab cache is accounted for");
	A_ACC(quota_used(&env_quota) == lcharge, "the quota is charged for large objects");
	for (uint32_t k = 0; k < npools; k++) {
		struct small_mempool *m = &alloc.small_mempool_cache[k];
		uint64_t waste = 0;
		for (int i = 0; i < n; i++)
			if (!o[i].large && o[i].fit == m->pool.objsize)
				waste += o[i].real - o[i].fit;
		A_ACC(m->waste == waste, "waste is what live objects take beyond their best fit");
		uint64_t slabsz = slab_order_size(&env_cache, m->pool.slab_order);
		A_ACC(waste == 0 || waste < slabsz / 4 + alloc.objsize_max - m->pool.objsize, "waste reaches a quarter of a slab with one object at most");
	}
}

int
main(void)
{
	env_slab_init(LIMIT);
#ifdef ENV_MALLOC
	env_malloc_fail_left = 1;
#endif
	salt = vp_u64();
	float actual;
	memset(&alloc, 0xa5, sizeof(alloc));
	small_alloc_create(&alloc, &env_cache, OBJMIN, GRAN, FACTOR, &actual);
	npools = alloc.small_mempool_cache_size;
	uint32_t objsize_max = mempool_objsize_max(ENV_SZ);
	A_MEM(npools > 1 && alloc.small_mempool_cache[npools - 1].pool.objsize >= objsize_max, "the pools cover sizes up to the maximum");
	check();
	for (int i = 0; i < OPS; i++) {
		vp_merge();
#ifdef BURST
		/* several objects of a size, or all objects of a size freed */
		if (n == 0 || vp_bool()) {
			uint32_t fit = alloc.small_mempool_cache[vp_choose(npools)].pool.objsize;
			uint64_t size = vp_range(below(fit) + 1, fit);
			for (int k = 0; k < BURST && alloc_one(size); k++)
				;
		} else {
			uint32_t fits[MAXO];
			int nf = 0;
			for (int j = 0; j < n; j++) {
				int k = 0;
				while (k < nf && fits[k] != o[j].fit)
					k++;
				fits[k] = o[j].fit;
				nf += k == nf;
			}
			uint32_t f = fits[vp_choose(nf)];
			for (int j = n - 1; j >= 0; j--)
				if (o[j].fit == f)
					free_one(j);
		}
		check();
		env_failed = env_nmaps = env_nunmaps = 0;
		continue;
#endif
		uint64_t op = vp_choose(2 + (n > 0 ? 4 : 0));
		if (op <= 1) {
			uint64_t size = vp_range(1, MAXSIZE);
#ifdef MANY
			int k = op == 0 ? 1 : MANY;
#else
			VP_ASSUME(op == 0);
			int k = 1;
#endif
			while (k-- > 0 && alloc_one(size))
				;
		} else if (op == 2) {
			free_one(0);
		} else if (op == 3) {
			VP_ASSUME(n > 1);
			free_one(n - 1);
		} else if (op == 4) {
			VP_ASSUME(n > 2);
			free_one((int)vp_choose(n - 2) + 1);
		} else {
			VP_ASSUME(n > 1);
			while (n > 0)
				free_one(n - 1);
		}
		check();
		env_failed = env_nmaps = env_nunmaps = 0;
#ifdef ENV_MALLOC
		env_malloc_failed = env_malloc_calls = 0;
		env_malloc_last = 0;
#endif
	}
	while (n > 0)
		free_one(n / 2);
	check();
	struct small_stats st;
	uint64_t c[2] = {0, 0};
	small_stats(&alloc, &st, stats_cb, c);
	A_ACC(st.used == 0, "nothing is used when everything is freed");
	small_alloc_destroy(&alloc);
	A_ACC(slab_cache_used(&env_cache) == 0, "destroy returns every slab");
	slab_cache_check(&env_cache);
	VP_WITNESS("end");
	return 0;
}
