/* slab_cache: blocks larger than an arena slab, of any size, any quota limit,
 * malloc may fail; ordered blocks in between. */
#include "vp.h"
#include "env_malloc.h"
#include "env_slab.h"
#define UNITS(x) (((x) / QUOTA_UNIT_SIZE) + ((x) % QUOTA_UNIT_SIZE != 0))
#ifndef MAXSIZE
#define MAXSIZE UINT64_MAX
#endif

static struct { struct slab *slab; uint64_t size; bool large; } h[OPS + 1];
static int nh;

int
main(void)
{
	uint64_t limit = vp_range(0, LIMITMAX / QUOTA_UNIT_SIZE) * QUOTA_UNIT_SIZE;
	env_slab_init(limit);
	env_malloc_fail_left = FAILS;
	uint64_t used = 0, total = 0, charged = 0;
	for (int i = 0; i < OPS; i++) {
		uint64_t op = vp_choose(2 + nh);
		if (op == 0) {
			uint64_t size = vp_range(0, MAXSIZE);
			VP_ASSUME(size > ENV_SZ - slab_sizeof());
			int f0 = env_malloc_failed;
			bool fits = size <= QUOTA_MAX && UNITS(size + slab_sizeof()) * QUOTA_UNIT_SIZE <= limit - charged;
			struct slab *s = vp_bool() ? slab_get(&env_cache, size) : slab_get_large(&env_cache, size);
			if (s == NULL) {
				VP_ASSERT(!fits || env_malloc_failed > f0, "fails only out of quota or out of memory");
				VP_WITNESS("refused");
			} else {
				VP_ASSERT(fits, "a large block never exceeds the quota");
				VP_ASSERT(env_malloc_last >= size + slab_sizeof(), "memory is allocated for the whole block");
				VP_ASSERT(s->size == size + slab_sizeof() && slab_capacity(s) == size, "a large block has exactly the size asked for");
				VP_ASSERT(slab_real_size(&env_cache, size) == s->size, "real size is the size of the block");
				char *d = (char *)slab_data(s);
				d[0] = (char)(i + 1);
				d[ENV_SZ - slab_sizeof()] = (char)(i + 1);
				VP_ASSERT(vp_accessible(s, size + slab_sizeof()), "the whole block is allocated");
				used += s->size;
				total += s->size;
				charged += UNITS(s->size) * QUOTA_UNIT_SIZE;
				h[nh].slab = s;
				h[nh].large = true;
				h[nh++].size = size;
				VP_WITNESS("large");
			}
		} else if (op == 1) {
			struct slab *s = slab_get_with_order(&env_cache, 0);
			if (s != NULL) {
				used += s->size;
				h[nh].slab = s;
				h[nh].large = false;
				h[nh++].size = s->size;
			}
		} else {
			int j = (int)op - 2;
			struct slab *s = h[j].slab;
			if (h[j].large) {
				VP_ASSERT(slab_capacity(s) == h[j].size, "the size is kept");
				char *d = (char *)slab_data(s);
				VP_ASSERT(d[0] == d[ENV_SZ - slab_sizeof()] && d[0] > 0, "contents stay intact");
				used -= h[j].size + slab_sizeof();
				total -= h[j].size + slab_sizeof();
				charged -= UNITS(h[j].size + slab_sizeof()) * QUOTA_UNIT_SIZE;
			} else {
				used -= h[j].size;
			}
			slab_put(&env_cache, s);
			h[j] = h[--nh];
			VP_WITNESS("put");
		}
		VP_ASSERT(slab_cache_used(&env_cache) == used, "used is the sum of the blocks given out");
		VP_ASSERT(env_cache.allocated.stats.total == total + (uint64_t)env_nmapped * ENV_SZ, "total is what was allocated");
		VP_ASSERT(quota_used(&env_quota) == charged, "quota is charged exactly for the large blocks");
		int nl = 0;
		for (int k = 0; k < nh; k++)
			nl += h[k].large;
		VP_ASSERT(env_malloc_live == nl, "a large block is freed when it is returned");
	}
	slab_cache_destroy(&env_cache);
	VP_ASSERT(env_nmapped == 0, "destroy returns every slab to the arena");
	VP_ASSERT(env_malloc_live == 0, "destroy frees the large blocks");
	VP_ASSERT(quota_used(&env_quota) == 0, "destroy gives the quota of large blocks back");
	VP_WITNESS("end");
	return 0;
}
