/* region_alloc_object() and region_alloc_array(): any number of elements. */
#include "vp.h"
#include "env_malloc.h"
#include "env_slab.h"
#include <stdalign.h>
#include "region.h"
struct t3 { char c[3]; };
struct t24 { uint64_t a[3]; };
struct t128 { alignas(128) char c[128]; };
static struct region r;

static void
check(char *p, uint64_t count, size_t elem, size_t align, size_t size, size_t used0)
{
	if (p == NULL) {
		VP_ASSERT((count > UINT64_MAX / elem) | (count * elem > (1ull << 33)) | (env_failed + env_malloc_failed > 0), "refused only if too big");
		VP_WITNESS("refused");
		return;
	}
	VP_ASSERT((count <= UINT64_MAX / elem) & (size == count * elem), "the size of the array is told");
	VP_ASSERT(((uintptr_t)p & (align - 1)) == 0, "aligned as the type");
	size_t d = region_used(&r) - used0;
	VP_ASSERT((d >= size) & (d - size < align), "the whole array is allocated");
	VP_WITNESS("array");
}

int
main(void)
{
	env_slab_init(LIMIT);
	memset(&r, 0xa5, sizeof(r));
	region_create(&r, &env_cache);
	if (vp_bool())
		region_alloc(&r, vp_bool() ? 1 : 100);
	size_t used0 = region_used(&r), size;
	uint64_t count = vp_u64();
	VP_ASSUME(count > 0);
	switch (vp_choose(6)) {
	case 0: {
		struct t3 *p = region_alloc_array(&r, struct t3, count, &size);
		check((char *)p, count, 3, 1, size, used0);
		break;
	}
	case 1: {
		struct t24 *p = region_alloc_array(&r, struct t24, count, &size);
		check((char *)p, count, 24, 8, size, used0);
		break;
	}
	case 2: {
		struct t128 *p = region_alloc_array(&r, struct t128, count, &size);
		check((char *)p, count, 128, 128, size, used0);
		break;
	}
	case 3: {
		struct t24 *p = region_alloc_object(&r, struct t24, &size);
		check((char *)p, 1, 24, 8, size, used0);
		break;
	}
	case 4: {
		struct t128 *p = region_alloc_object(&r, struct t128, &size);
		check((char *)p, 1, 128, 128, size, used0);
		break;
	}
	default: {
		char *p = region_alloc_array(&r, char, count, &size);
		check(p, count, 1, 1, size, used0);
		break;
	}
	}
	region_destroy(&r);
	VP_ASSERT(env_nmapped <= 1 && env_malloc_live == 0, "destroy returns everything");
	VP_WITNESS("end");
	return 0;
}
