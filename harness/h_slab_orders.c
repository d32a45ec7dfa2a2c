/* slab_cache: block sizes for every arena slab size and every request. */
#include "vp.h"
#define ENV_SZ 64
#include "env_slab.h"

int
main(void)
{
	memset(&env_quota, 0xa5, sizeof(env_quota));
	quota_init(&env_quota, 0);
	uint64_t lb = vp_range(12, 31);
	lb = vp_concretize(lb);
	struct slab_arena a;
	a.slab_size = 1u << lb;
	a.quota = &env_quota;
	struct slab_cache c;
	memset(&c, 0xa5, sizeof(c));
	slab_cache_create(&c, &a);
	uint64_t min = a.slab_size >> 16 > 4096 ? a.slab_size >> 16 : 4096;
	uint64_t order0 = slab_order_size(&c, 0);
	VP_ASSERT(order0 >= 4096 && order0 <= a.slab_size && (order0 & (order0 - 1)) == 0, "the smallest block is a power of two");
	VP_ASSERT(order0 == 4096 || order0 == a.slab_size >> (ORDER_MAX - 1), "the smallest block is a page, or as close as the number of orders permits");
	VP_ASSERT((uint64_t)slab_order_size(&c, c.order_max) == a.slab_size, "the largest block is an arena slab");
	uint64_t size = vp_range(0, 1ull << 33);
	uint64_t real = slab_real_size(&c, size);
	uint64_t need = size + slab_sizeof();
	if (need <= a.slab_size)
		real = vp_concretize(real);
	VP_ASSERT(real >= need, "the block holds the request and the header");
	if (need > a.slab_size) {
		VP_ASSERT(real == need, "a large block is exact");
		VP_WITNESS("large");
	} else {
		VP_ASSERT((real & (real - 1)) == 0 && real <= a.slab_size, "a power of two");
		VP_ASSERT(real == order0 || real / 2 < need, "the smallest power of two that fits");
		VP_WITNESS("ordered");
	}
	(void)min;
	VP_WITNESS("end");
	return 0;
}
