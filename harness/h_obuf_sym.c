/* obuf: OPS operations with sizes of any 64-bit value: placement, order,
 * accounting and failures, decided without touching the memory. */
#include "vp.h"
#include "env_malloc.h"
#include "env_slab.h"
#include "obuf.h"
static struct obuf b;
static struct { char *p; uint64_t size, off; } a[OPS];	/* what is in the buffer, in order */
static int n;

static void
check(void)
{
	uint64_t sum = 0, mem = 0;
	int cnt = obuf_iovcnt(&b);
	VP_ASSERT(cnt >= 0 && cnt <= SMALL_OBUF_IOV_MAX, "no more vectors than there can be");
	for (int i = 0; i < cnt; i++)
		sum += b.iov[i].iov_len;
	VP_ASSERT(sum == obuf_size(&b), "the vectors hold the size of the buffer");
	for (int i = 0; i < b.n_iov; i++) {
		VP_ASSERT((b.iov[i].iov_len <= b.capacity[i]) & vp_accessible(b.iov[i].iov_base, b.capacity[i]), "a vector lies within its block");
		if (i >= cnt)
			VP_ASSERT(b.iov[i].iov_len == 0, "the rest of the vectors are empty");
		mem += slab_real_size(&env_cache, b.capacity[i]);
		for (int j = 0; j < i; j++)
			VP_ASSERT(b.iov[i].iov_base != b.iov[j].iov_base, "every vector has a block of its own");
	}
	VP_ASSERT((b.iov[b.n_iov].iov_base == NULL) & (b.iov[b.n_iov].iov_len == 0), "the vector that follows the last allocated one is empty");
	VP_ASSERT(mem == slab_cache_used(&env_cache), "the blocks of the vectors are held, and no others");
	for (int k = 0; k < n; k++) {
		uint64_t off = 0;
		int ok = 0;
		for (int i = 0; i < cnt; i++) {
			char *base = (char *)b.iov[i].iov_base;
			uint64_t d = (uint64_t)(a[k].p - base);
			ok |= (a[k].p >= base) & (d <= b.iov[i].iov_len) & (a[k].size <= b.iov[i].iov_len - d) & (off + d == a[k].off);
			off += b.iov[i].iov_len;
		}
		VP_ASSERT(ok, "what was added is in the vectors, in order and in place");
	}
}

int
main(void)
{
	env_slab_init(LIMIT);
	env_malloc_fail_left = 1;
#if OPS == 1
	uint64_t start = vp_range(1, LIMIT);
#else
	static const uint64_t starts[] = {1, 100, 16384};
	uint64_t start = starts[vp_choose(3)];
#endif
	memset(&b, 0xa5, sizeof(b));
	obuf_create(&b, &env_cache, start);
	VP_ASSERT(obuf_is_initialized(&b) && obuf_size(&b) == 0 && obuf_iovcnt(&b) == 0, "empty");
	struct obuf_svp svp;
	int svp_n = 0;
	bool have_svp = false;
	for (int i = 0; i < OPS; i++) {
		/* the first one allocates */
		uint64_t op = i == 0 ? vp_choose(2) : vp_choose(4);
		uint64_t used0 = obuf_size(&b);
		int f0 = env_failed + env_malloc_failed;
		uint64_t left = quota_total(&env_quota) - quota_used(&env_quota);
		if (op <= 1) {
			uint64_t size = vp_range(1, UINT64_MAX), res = size;
			uint64_t cap = b.capacity[b.pos] > start << b.pos ? b.capacity[b.pos] : start << b.pos;
			if (i < OPS - 1)
				VP_ASSUME(size <= 2 * cap);
			char *p;
			if (op == 0) {
				p = (char *)obuf_alloc(&b, size);
			} else {
				p = (char *)obuf_reserve(&b, res);
				if (p != NULL) {
					uint64_t d = (uint64_t)(p - (char *)b.iov[b.pos].iov_base);
					VP_ASSERT((d <= b.capacity[b.pos]) & (size <= b.capacity[b.pos] - d), "all of the reserved memory lies in a block");
					VP_ASSERT(obuf_size(&b) == used0, "reserved memory is not used");
					size = vp_range(1, UINT64_MAX);
					VP_ASSUME(size <= res);
					char *q = (char *)obuf_alloc(&b, size);
					VP_ASSERT(p == q, "allocating reserved memory does not move it");
					VP_WITNESS("reserved");
				}
			}
			if (p == NULL) {
				VP_ASSERT((env_failed + env_malloc_failed > f0) | (res > left) | (res + 4096 > left / 2) |
					  (2 * cap + 4096 > left / 2), "refused only out of memory or quota");
				VP_ASSERT(obuf_size(&b) == used0, "a refused allocation adds nothing");
				VP_WITNESS("refused");
			} else {
				VP_ASSERT(obuf_size(&b) == used0 + size, "the size grows by what was added");
				a[n].p = p;
				a[n].size = size;
				a[n++].off = used0;
				VP_WITNESS("allocated");
			}
		} else if (op == 2) {
			if (have_svp) {
				obuf_rollback_to_svp(&b, &svp);
				n = svp_n;
				VP_ASSERT(obuf_size(&b) == svp.used, "rollback restores the size");
				VP_WITNESS("rollback");
			} else {
				obuf_reset(&b);
				n = 0;
				VP_ASSERT(obuf_size(&b) == 0 && obuf_iovcnt(&b) == 0, "reset empties the buffer");
			}
		} else {
			VP_ASSUME(!have_svp);
			svp = obuf_create_svp(&b);
			svp_n = n;
			have_svp = true;
			VP_ASSERT(svp.used == used0, "a savepoint tells the size");
		}
		check();
	}
	obuf_destroy(&b);
	VP_ASSERT((slab_cache_used(&env_cache) == 0) & (quota_used(&env_quota) == 0) & (env_malloc_live == 0), "destroy returns everything");
	VP_ASSERT(!obuf_is_initialized(&b), "destroyed");
	VP_WITNESS("end");
	return 0;
}
