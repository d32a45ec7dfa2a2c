/* ibuf: OPS operations with sizes of any 64-bit value: positions, capacity,
 * accounting and failures, decided without moving the bytes (the copies made
 * are checked instead). */
#include "vp.h"
#include "env_malloc.h"
#include "env_slab.h"
#include "ibuf.h"
static struct { const char *dst, *src; uint64_t n; int calls; } copy;

void *
env_memmove(void *dst, const void *src, size_t n)
{
	copy.dst = dst;
	copy.src = src;
	copy.n = n;
	copy.calls++;
	return dst;
}

void *
env_memcpy(void *dst, const void *src, size_t n)
{
	VP_ASSERT(((char *)dst + n <= (char *)src) | ((char *)src + n <= (char *)dst), "memory that is copied does not overlap");
	return env_memmove(dst, src, n);
}

static struct ibuf b;

static uint64_t
held(void)
{
	return b.buf == NULL ? 0 : slab_real_size(&env_cache, ibuf_capacity(&b));
}

static void
check(void)
{
	VP_ASSERT((b.buf <= b.rpos) & (b.rpos <= b.wpos) & (b.wpos <= b.end), "positions are in order");
	VP_ASSERT((b.buf == NULL) == (b.end == NULL), "either all or nothing is allocated");
	if (b.buf != NULL)
		VP_ASSERT(vp_accessible(b.buf, ibuf_capacity(&b)), "the capacity is backed by memory");
	VP_ASSERT(slab_cache_used(&env_cache) == held(), "one block is held");
	VP_ASSERT(b.buf == NULL || ibuf_capacity(&b) >= b.start_capacity, "at least the start capacity");
}

int
main(void)
{
	env_slab_init(LIMIT);
	env_malloc_fail_left = 1;
#if OPS == 1
	uint64_t start = vp_range(1, LIMIT);
#else
	static const uint64_t starts[] = {1, 100, 16384};
	uint64_t start = starts[vp_choose(3)];
#endif
	memset(&b, 0xa5, sizeof(b));
	ibuf_create(&b, &env_cache, start);
	for (int i = 0; i < OPS; i++) {
		/* the first one allocates, the last one allocates or shrinks */
		uint64_t op = i == 0 ? vp_choose(2) : i < OPS - 1 ? vp_choose(6) : vp_choose(3);
		if (i > 0 && i == OPS - 1 && op == 2)
			op = 4;
		uint64_t used0 = ibuf_used(&b), unused0 = ibuf_unused(&b), cap0 = ibuf_capacity(&b);
		struct ibuf b0 = b;
		int f0 = env_failed + env_malloc_failed;
		uint64_t left = quota_total(&env_quota) - quota_used(&env_quota);
		copy.calls = 0;
		if (op <= 1) {
			uint64_t size = vp_range(1, UINT64_MAX);
			char *p;
			if (i < OPS - 1)
				VP_ASSUME(size <= (i == 0 ? 4 : 2) * (cap0 > start ? cap0 : start));
			if (op == 0) {
				p = (char *)ibuf_reserve(&b, size);
			} else {
				p = (char *)ibuf_alloc(&b, size);
			}
			if (p == NULL) {
				VP_ASSERT((size > unused0) & (size > cap0 - used0), "what fits is not refused");
				VP_ASSERT((env_failed + env_malloc_failed > f0) | (size > left) | (used0 + size + 4096 > left / 2) |
					  (cap0 * 2 + 4096 > left) | (start + 4096 > left), "refused only out of memory or quota");
				VP_ASSERT((b.buf == b0.buf) & (b.rpos == b0.rpos) & (b.wpos == b0.wpos) & (b.end == b0.end),
					  "a refused request changes nothing");
				VP_ASSERT(slab_cache_used(&env_cache) == (b.buf == NULL ? 0 : held()), "a refused request keeps no memory");
				VP_WITNESS("refused");
			} else {
				uint64_t room = (uint64_t)(b.end - p);
				VP_ASSERT((p >= b.buf) & (p <= b.end) & (size <= room), "all of the memory asked for lies in the buffer");
				VP_ASSERT(p == b.rpos + used0, "it follows the data");
				if (op == 0) {
					VP_ASSERT(b.wpos == p, "reserved memory is not used");
					VP_WITNESS("reserved");
				} else {
					VP_ASSERT(b.wpos == p + size, "the size is used");
					VP_WITNESS("allocated");
				}
				if (size <= unused0) {
					VP_ASSERT((b.buf == b0.buf) & (b.rpos == b0.rpos) & ((copy.calls == 0) | (used0 == 0)), "nothing moves without need");
				} else {
					VP_ASSERT((used0 == 0) | ((copy.calls == 1) & (copy.dst == b.rpos) & (copy.src == b0.rpos) & (copy.n == used0)),
						  "the data moves with the buffer");
					if (size <= cap0 - used0) {
						VP_ASSERT(b.buf == b0.buf, "no memory is taken when defragmenting is enough");
						VP_WITNESS("defragmented");
					} else {
						VP_ASSERT(ibuf_capacity(&b) >= cap0, "the buffer grows");
						VP_WITNESS("grown");
					}
				}
			}
		} else if (op == 2) {
			uint64_t k = vp_u64();
			VP_ASSUME(k <= used0);
			ibuf_consume(&b, k);
			VP_ASSERT((ibuf_used(&b) == used0 - k) & (b.rpos == b0.rpos + k) & (b.wpos == b0.wpos), "consumed from the beginning");
			VP_ASSERT(ibuf_pos(&b) == (uint64_t)(b.rpos - b.buf), "position");
		} else if (op == 3) {
			uint64_t k = vp_u64();
			VP_ASSUME(k <= used0);
			ibuf_truncate(&b, used0 - k);
			VP_ASSERT((ibuf_used(&b) == used0 - k) & (b.rpos == b0.rpos) & (b.wpos == b0.wpos - k), "discarded from the end");
		} else if (op == 4) {
			ibuf_shrink(&b);
			VP_ASSERT(ibuf_used(&b) == used0, "shrinking keeps the data");
			VP_ASSERT(ibuf_capacity(&b) <= cap0, "shrinking does not grow");
			if (b.buf != b0.buf) {
					VP_ASSERT((used0 == 0) | ((copy.calls == 1) & (copy.dst == b.rpos) & (copy.src == b0.rpos) & (copy.n == used0)),
						  "the data moves with the buffer");
				VP_WITNESS("shrunk");
			} else {
				VP_ASSERT((b.rpos == b0.rpos) & (b.wpos == b0.wpos), "shrinking in place moves nothing");
			}
			uint64_t need = used0 > start ? used0 : start;
			VP_ASSERT((used0 == 0) ? b.buf == NULL :
				  (env_failed + env_malloc_failed > f0) | (need + 4096 > left) |
				  (slab_real_size(&env_cache, ibuf_capacity(&b)) == slab_real_size(&env_cache, need)),
				  "shrunk to the smallest block");
		} else {
			bool re = vp_bool();
			if (re)
				ibuf_reinit(&b);
			else
				ibuf_reset(&b);
			VP_ASSERT((ibuf_used(&b) == 0) & (ibuf_pos(&b) == 0), "all data is forgotten");
			VP_ASSERT(re ? b.buf == NULL : b.buf == b0.buf, "reinit frees the memory, reset keeps it");
		}
		check();
	}
	ibuf_destroy(&b);
	VP_ASSERT((slab_cache_used(&env_cache) == 0) & (quota_used(&env_quota) == 0) & (env_malloc_live == 0), "destroy returns everything");
	VP_WITNESS("end");
	return 0;
}
