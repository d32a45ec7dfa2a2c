/* region: OPS operations with sizes of any 64-bit value: placement, accounting
 * and failures, decided without touching the memory. */
#include "vp.h"
#include "env_malloc.h"
#include "env_slab.h"
#include "region.h"
#ifdef MEM
#define A_MEM(c, m) VP_ASSERT(c, m)
#define A_ACC(c, m) ((void)0)
#else
#define A_MEM(c, m) ((void)0)
#define A_ACC(c, m) VP_ASSERT(c, m)
#endif
static struct { char *p; uint64_t size, end; } a[OPS + 1];	/* live allocations, with the usage after each */
static int n;
static struct region r;
static uint64_t cb_alloc, cb_truncate;
static int cb_nalloc, cb_ntruncate;

static void
on_alloc(struct region *region, size_t size, void *arg)
{
	VP_ASSERT(region == &r && arg == &cb_alloc, "callback arguments");
	cb_alloc = size;
	cb_nalloc++;
}

static void
on_truncate(struct region *region, size_t used, void *arg)
{
	VP_ASSERT(region == &r && arg == &cb_alloc, "callback arguments");
	cb_truncate = used;
	cb_ntruncate++;
}

/** [p, p + size) lies in the used part of a block the region still owns. */
static bool
owned(const char *p, uint64_t size)
{
	struct rlist *l;
	for (l = r.slabs.slabs.next; l != &r.slabs.slabs; l = l->next) {
		struct rslab *s = (struct rslab *)rlist_entry(l, struct slab, next_in_list);
		char *b = (char *)rslab_data(s);
		if (p >= b && p < (char *)s + s->slab.size)
			return (uint64_t)(p - b) <= s->used && size <= s->used - (uint64_t)(p - b) &&
			       s->used <= s->slab.size - rslab_sizeof();
	}
	return false;
}

static bool
disjoint(const char *p, uint64_t size)
{
	for (int i = 0; i < n; i++)
		if (p < a[i].p + a[i].size && a[i].p < p + size)
			return false;
	return true;
}

int
main(void)
{
	env_slab_init(LIMIT);
	env_malloc_fail_left = 1;
	memset(&r, 0xa5, sizeof(r));
	region_create(&r, &env_cache);
	bool cb = vp_bool();
	if (cb)
		region_set_callbacks(&r, on_alloc, on_truncate, &cb_alloc);
	for (int i = 0; i < OPS; i++) {
		uint64_t op = i == OPS - 1 ? 3 + vp_choose(4) : vp_choose(7);	/* the last one releases */

		uint64_t used0 = region_used(&r), total0 = region_total(&r);
		cb_nalloc = cb_ntruncate = 0;
		if (op <= 2) {
			uint64_t size = vp_range(1, UINT64_MAX), align = 1, reserve = 0;
			int f0 = env_failed + env_malloc_failed;
			uint64_t left = quota_total(&env_quota) - quota_used(&env_quota);
			char *p, *q = NULL;
			if (op == 0) {
				p = (char *)region_alloc(&r, size);
			} else if (op == 1) {
				align = vp_bool() ? 8 : 512;
				p = (char *)region_aligned_alloc(&r, size, align);
			} else {
				reserve = vp_range(0, UINT64_MAX);
				VP_ASSUME(size <= reserve);
				q = (char *)region_reserve(&r, reserve);
				A_ACC(region_used(&r) == used0, "reserved memory is not used");
				p = q == NULL ? NULL : (char *)region_alloc(&r, size);
				if (q != NULL)
					A_MEM(p == q, "allocating reserved memory does not move it");
				if (q != NULL)
					VP_WITNESS("reserved");
			}
			uint64_t most = reserve > size ? reserve : size;
			if (p == NULL) {
				A_MEM(env_failed + env_malloc_failed > f0 || most > left || most + 2048 > left,
				      "refused only out of memory or quota");
				A_ACC(region_used(&r) == used0 && region_total(&r) == total0, "a refused allocation changes nothing");
				A_ACC(cb_nalloc == 0, "no callback for a refused allocation");
				for (int k = 0; k < n; k++)
					A_MEM(owned(a[k].p, a[k].size), "a refused allocation changes nothing");
				VP_WITNESS("refused");
			} else {
				A_MEM(((uintptr_t)p & (align - 1)) == 0, "aligned as asked");
				A_MEM(owned(p, size), "the memory lies in a block of the region");
				if (reserve > 0) {
					struct rslab *s = (struct rslab *)rlist_first_entry(&r.slabs.slabs, struct slab, next_in_list);
					A_MEM(p + reserve <= (char *)s + s->slab.size, "all of the reserved memory lies in the block");
				}
				A_MEM(disjoint(p, size), "allocations do not overlap");
				uint64_t d = region_used(&r) - used0;
				A_ACC(region_used(&r) > used0 && d >= size && d - size < align, "used grows by the size and the padding");
				A_ACC(!cb || (cb_nalloc == 1 && cb_alloc == d), "the callback tells what is used");
				a[n].p = p;
				a[n].size = size;
				a[n++].end = region_used(&r);
				VP_WITNESS("allocated");
			}
			A_ACC(cb_ntruncate == 0, "no truncation");
		} else if (op == 3) {
			/* truncate to a previous usage */
			int k = (int)vp_choose(n + 1);
			uint64_t to = k == 0 ? 0 : a[k - 1].end;
			region_truncate(&r, to);
			n = k;
			A_ACC(region_used(&r) == to, "used is what it was truncated to");
			A_ACC(!cb || (cb_ntruncate == 1 && cb_truncate == to), "the callback tells what is left");
			if (to == 0)
				A_ACC(region_total(&r) == 0, "truncating to zero keeps no memory");
			VP_WITNESS("truncated");
		} else if (op == 4) {
			/* free if more than so much is in use */
			uint64_t after = vp_u64();
			region_free_after(&r, after);
			if (used0 > after) {
				n = 0;
				A_ACC(region_used(&r) == 0 && region_total(&r) == 0, "free leaves nothing");
				A_ACC(!cb || (cb_ntruncate == 1 && cb_truncate == 0), "the callback tells what is left");
			} else {
				A_ACC(region_used(&r) == used0 && region_total(&r) == total0 && cb_ntruncate == 0, "nothing is freed up to the given usage");
			}
		} else if (op == 5) {
			region_free(&r);
			n = 0;
			A_ACC(region_used(&r) == 0 && region_total(&r) == 0, "free leaves nothing");
			A_ACC(!cb || (cb_ntruncate == 1 && cb_truncate == 0), "the callback tells what is left");
		} else {
			region_reset(&r);
			n = 0;
			A_ACC(region_used(&r) == 0, "an empty region uses nothing");
			A_ACC(region_total(&r) == total0, "reset keeps the blocks");
			VP_WITNESS("reset");
		}
		for (int k = 0; k < n; k++) {
			A_MEM(owned(a[k].p, a[k].size), "what is not truncated stays allocated");
		}
		A_ACC(region_total(&r) == slab_cache_used(&env_cache), "total is what was taken from the slab cache");
		A_ACC(region_used(&r) <= region_total(&r), "used is part of the total");
	}
	region_destroy(&r);
	A_ACC(slab_cache_used(&env_cache) == 0 && quota_used(&env_quota) == 0 && env_malloc_live == 0, "destroy returns everything");
	VP_WITNESS("end");
	return 0;
}
