/* slab_cache: histories of OPS get/put with symbolic sizes over an arena that
 * may fail. MEM: the blocks themselves; otherwise: the accounting. */
#include "vp.h"
#include "env_slab.h"
#ifdef MEM
#define A_MEM(c, m) VP_ASSERT(c, m)
#define A_ACC(c, m) ((void)0)
#else
#define A_MEM(c, m) ((void)0)
#define A_ACC(c, m) VP_ASSERT(c, m)
#endif
#define MAXH OPS
#define ORDER0 SLAB_MIN_ORDER0_SIZE

static struct { struct slab *slab; size_t size; } h[MAXH + 1];
static int nh;

static char salt;	/* any */

static char
tag(const void *p)
{
	return (char)(((uintptr_t)p / ORDER0) * 7 + salt);
}

static bool
block_is_free(const char *p, size_t size)
{
	for (int i = 0; i < nh; i++) {
		const char *s = (const char *)h[i].slab;
		if (p < s + h[i].size && s < p + size)
			return false;
	}
	return true;
}

/** A free aligned block of the size exists in the mapped slabs. */
static bool
have_free(size_t size)
{
	for (int i = 0; i < ENV_K; i++) {
		if (!env_mapped[i])
			continue;
		for (size_t o = 0; o < ENV_SZ; o += size)
			if (block_is_free(env_pool[i] + o, size))
				return true;
	}
	return false;
}

static void
check(void)
{
	size_t used = 0;
	for (int i = 0; i < nh; i++)
		used += h[i].size;
	A_ACC(slab_cache_used(&env_cache) == used, "used is the sum of the blocks given out");
	A_ACC(env_cache.allocated.stats.total == (size_t)env_nmapped * ENV_SZ, "total is what was taken from the arena");
	int wholly_free = 0;
	for (int i = 0; i < ENV_K; i++)
		wholly_free += env_mapped[i] && block_is_free(env_pool[i], ENV_SZ);
	A_ACC(wholly_free <= 1, "at most one idle slab is kept, others go back to the arena");
	A_ACC(quota_used(&env_quota) == 0, "ordered blocks are charged by the arena only");
	slab_cache_check(&env_cache);
}

int
main(void)
{
	env_slab_init(1 << 20);
	salt = (char)vp_range(0, 255);
	for (int i = 0; i < OPS; i++) {
		vp_merge();
		uint64_t op = vp_choose(2 + nh);
		if (op < 2) {
			struct slab *s;
			size_t want, cap;
			int m0 = env_nmaps, f0 = env_failed;
			bool have;
			if (op == 0) {
				uint64_t size = vp_range(0, ENV_SZ - slab_sizeof());
				for (want = ORDER0; want < size + slab_sizeof(); want *= 2)
					;
				have = have_free(want);
				s = slab_get(&env_cache, size);
				if (s != NULL)
					A_MEM(slab_capacity(s) >= size, "the block holds the size asked for");
				A_MEM(slab_real_size(&env_cache, size) == want, "the size of the block is the smallest that fits");
			} else {
				uint64_t order = vp_choose(NORDERS);
				want = (size_t)ORDER0 << order;
				have = have_free(want);
				s = slab_get_with_order(&env_cache, (uint8_t)order);
			}
			if (s == NULL) {
				A_MEM(!have && env_failed > f0, "fails only if no free block fits and the arena is out of memory");
				VP_WITNESS("refused");
			} else {
				A_MEM(s->size == want, "the smallest block that fits");
				A_MEM(((uintptr_t)s & (want - 1)) == 0, "a block is aligned to its size");
				int k = env_slab_of(s);
				A_MEM(k >= 0 && env_mapped[k] && env_slab_of((char *)s + want - 1) == k, "a block lies within one mapped slab");
				A_MEM(block_is_free((char *)s, want), "blocks do not overlap");
				A_ACC(env_nmaps - m0 == (have ? 0 : 1), "a new slab is mapped only if no free block fits");
				A_MEM((char *)slab_data(s) == (char *)s + slab_sizeof() && slab_from_data(slab_data(s)) == s, "data follows the header");
				A_MEM(slab_capacity(s) == want - slab_sizeof(), "capacity is the rest of the block");
				char *d = (char *)slab_data(s);
				memset(d, tag(s), slab_capacity(s));
				int j = nh++;
				while (j > 0 && h[j - 1].slab > s) {
					h[j] = h[j - 1];
					j--;
				}
				h[j].slab = s;
				h[j].size = want;
				VP_WITNESS(have ? "reused" : "mapped");
			}
			(void)cap;
		} else {
			int j = (int)op - 2;
			char *d = (char *)slab_data(h[j].slab);
			size_t n = h[j].size - slab_sizeof();
			A_MEM(h[j].slab->size == h[j].size, "the size of a block does not change");
			A_MEM(d[0] == tag(h[j].slab) && d[n / 2] == tag(h[j].slab) && d[n - 1] == tag(h[j].slab), "contents stay intact");
			if (h[j].size == ENV_SZ || vp_bool())
				slab_put(&env_cache, h[j].slab);
			else
				slab_put_with_order(&env_cache, h[j].slab);
			nh--;
			for (; j < nh; j++)
				h[j] = h[j + 1];
			h[nh].slab = NULL;
			h[nh].size = 0;
			VP_WITNESS("put");
		}
		check();
		env_nmaps = env_nunmaps = env_failed = 0;
	}
	for (int i = 0; i < nh; i++) {
		char *d = (char *)slab_data(h[i].slab);
		for (size_t o = 0; o < h[i].size - slab_sizeof(); o++)
			A_MEM(d[o] == tag(h[i].slab), "contents stay intact");
	}
	if (vp_bool()) {
		while (nh > 0) {
			nh--;
			slab_put(&env_cache, h[nh].slab);
		}
		check();
		A_ACC(env_nmapped <= 1, "when everything is returned, at most one slab is kept");
		if (env_nmapped > 0)
			A_ACC(have_free(ENV_SZ) && slab_get_with_order(&env_cache, NORDERS - 1) != NULL && env_nmapped == 1,
			      "free buddies coalesce back into a whole slab");
	}
	slab_cache_destroy(&env_cache);
	A_ACC(env_nmapped == 0, "destroy returns every slab to the arena");
	VP_WITNESS("end");
	return 0;
}
