/* ASAN build: misuse of a region or an obuf is detected, proper use is not
 * reported: symbolic sizes where the memory need not be touched. */
#include "vp.h"
#include "env_slab.h"
#include "env_malloc.h"
#include "region.h"
#include "obuf.h"

int
main(void)
{
	small_on_assert_failure = env_on_fail;
	env_slab_init(1 << 20);
	static struct region r;
	static struct obuf b;
	memset(&r, 0xa5, sizeof(r));
	region_create(&r, &env_cache);
	memset(&b, 0xa5, sizeof(b));
	obuf_create(&b, &env_cache, 64);
	size_t s1 = 1 + vp_choose(3) * 50, s2 = 1 + vp_choose(3) * 50;
	switch (vp_choose(7)) {
	case 0: {	/* a reservation is used with another alignment or a bigger size */
		size_t al = vp_bool() ? 1 : 8;
		region_aligned_reserve(&r, s1, 8);
		size_t room = r.reserved;
		VP_ASSERT(room >= s1, "reserved");
		size_t size = vp_concretize(vp_range(1, room + 3));
		env_expect_fail = size > room || al != 8;
		char *p = (char *)region_aligned_alloc(&r, size, al);
		VP_ASSERT(!env_expect_fail, "an allocation that is not what was reserved is detected");
		VP_ASSERT(vp_is_poisoned(p + size) && !vp_is_poisoned(p + size - 1), "what was reserved and not allocated is poisoned");
		break;
	}
	case 1:
		region_reserve(&r, s1);
		env_expect_fail = true;
		if (vp_bool())
			region_reserve(&r, s2);
		else
			region_join(&r, 1);
		VP_ASSERT(0, "a reservation before the previous one is used is detected");
	case 2: {	/* to any mark */
		region_alloc(&r, s1);
		char *p = (char *)region_alloc(&r, s2);
		bool reserved = vp_bool();
		if (reserved)
			region_reserve(&r, 10);
		size_t to = vp_range(0, 1000);
		env_expect_fail = to > s1 + s2 || (to != 0 && to != s1 && to != s1 + s2);
		region_truncate(&r, to);
		VP_ASSERT(!env_expect_fail, "truncation to what is not a mark is detected");
		VP_ASSERT(region_used(&r) == to, "used");
		VP_ASSERT(env_malloc_live == (to == 0 ? 0 : to == s1 ? 1 : 2), "what is cut is freed");
		p = (char *)region_alloc(&r, 5);
		p[4] = 0;
		break;
	}
	case 3: {	/* more than is used is joined */
		region_alloc(&r, s1);
		region_alloc(&r, s2);
		size_t size = vp_concretize(vp_range(0, s1 + s2 + 2));
		VP_ASSUME(size != 0);
		memset(small_asan_payload_from_header(rlist_first_entry(&r.allocations, struct region_allocation, link)), 'a', s2);
		memset(small_asan_payload_from_header(rlist_last_entry(&r.allocations, struct region_allocation, link)), 'b', s1);
		env_expect_fail = size > s1 + s2;
		char *p = (char *)region_join(&r, size);
		VP_ASSERT(!env_expect_fail, "joining more than is used is detected");
		for (size_t i = 0; i < size; i++)
			VP_ASSERT(p[i] == (size - i > s2 ? 'b' : 'a'), "the last bytes are joined in order");
		break;
	}
	case 4: {
		obuf_reserve(&b, s1);
		size_t room = b.capacity[b.pos] - b.iov[b.pos].iov_len;
		size_t size = vp_concretize(vp_range(0, room + 3));
		VP_ASSERT(room >= s1, "reserved");
		env_expect_fail = size > room;
		char *p = (char *)obuf_alloc(&b, size);
		VP_ASSERT(!env_expect_fail, "an allocation of more than was reserved is detected");
		VP_ASSERT(vp_is_poisoned(p + size), "what was reserved and not allocated is poisoned");
		VP_ASSERT(size == 0 || !vp_is_poisoned(p + size - 1), "what is allocated is accessible");
		break;
	}
	case 5:
		obuf_reserve(&b, s1);
		env_expect_fail = true;
		obuf_reserve(&b, s2);
		VP_ASSERT(0, "a reservation before the previous one is used is detected");
	default: {
		obuf_alloc(&b, s1);
		struct obuf_svp svp = obuf_create_svp(&b);
		obuf_alloc(&b, s2);
		if (vp_bool())
			obuf_reset(&b);
		env_expect_fail = b.used == 0 && vp_bool();
		if (env_expect_fail)
			svp.pos = 1;	/* of a vector that is not there */
		else
			VP_ASSUME(b.used != 0);
		obuf_rollback_to_svp(&b, &svp);
		VP_ASSERT(!env_expect_fail, "a savepoint that is not in the buffer is detected");
		VP_ASSERT(obuf_size(&b) == s1, "size");
		break;
	}
	}
	region_destroy(&r);
	obuf_destroy(&b);
	VP_ASSERT(env_malloc_live == 0, "destroy returns everything");
	VP_WITNESS("end");
	return 0;
}
