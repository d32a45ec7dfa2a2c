/* small allocator: for every configuration, every size. */
#include "vp.h"
#include "env_slab.h"
#include "small.h"
static struct small_alloc alloc;

int
main(void)
{
	env_slab_init(1 << 20);
	static const float factors[] = {1.01f, 1.03f, 1.05f, 1.1f, 1.2f, 1.3f, 1.5f, 1.7f, 2.0f};
	float f = factors[vp_choose(sizeof(factors) / sizeof(factors[0]))];
	unsigned gran = 1u << vp_choose(7);
	unsigned min = (unsigned)vp_choose(4);
	min = min == 0 ? 8 : min == 1 ? 12 : min == 2 ? 64 : 200;
	if (gran < 8 && min == 8)
		gran = 8;
	float actual = 0;
	memset(&alloc, 0xa5, sizeof(alloc));
	small_alloc_create(&alloc, &env_cache, min, gran, f, &actual);
	uint32_t max = mempool_objsize_max(ENV_SZ);
	uint64_t size = vp_range(1, 1 << 20);
	struct small_alloc_info info;
	small_alloc_info(&alloc, NULL, size, &info);
	VP_ASSERT(info.real_size >= size, "the memory holds the size");
	if (info.is_large) {
		VP_ASSERT(info.real_size == size, "a large object takes its size");
		uint32_t pools = alloc.small_mempool_cache_size;
		VP_ASSERT(size > max || pools == SMALL_MEMPOOL_MAX, "only an object that does not fit into the pools is large");
		VP_ASSERT(size > alloc.small_mempool_cache[pools - 1].pool.objsize, "only an object that does not fit into the pools is large");
		VP_WITNESS("large");
	} else {
		VP_ASSERT(info.real_size % gran == 0, "objects take whole granules");
		VP_ASSERT(info.real_size <= max + gran, "pool objects are at most the maximum");
		char *p = (char *)smalloc(&alloc, size);
		VP_ASSERT(p != NULL, "memory is available");
		VP_ASSERT(vp_accessible(p, size), "the whole object is memory");
		VP_ASSERT(((uintptr_t)p & (gran - 1)) == 0, "objects are aligned to the granularity");
		int k = env_slab_of(p);
		VP_ASSERT(k >= 0 && env_slab_of(p + info.real_size - 1) == k, "the object lies within one slab");
		char *q = (char *)smalloc(&alloc, size);
		VP_ASSERT(q + info.real_size <= p || p + info.real_size <= q, "objects do not overlap");
		struct small_stats st;
		uint64_t size2 = info.real_size + 1;	/* the next pool */
		struct small_alloc_info info2;
		small_alloc_info(&alloc, NULL, size2, &info2);
		if (!info2.is_large && info2.real_size != info.real_size) {
			char *r = (char *)smalloc(&alloc, size2);
			VP_ASSERT(r != NULL && (r + info2.real_size <= p || p + info.real_size <= r) &&
				  (r + info2.real_size <= q || q + info.real_size <= r), "objects do not overlap");
			smfree(&alloc, r, size2);
			VP_WITNESS("other-pool");
		}
		smfree(&alloc, p, size);
		smfree(&alloc, q, size);
		VP_WITNESS("pool");
	}
	small_alloc_destroy(&alloc);
	VP_ASSERT(slab_cache_used(&env_cache) == 0, "destroy returns every slab");
	VP_WITNESS("end");
	return 0;
}
