/* slab_arena: OPS operations (map a slab, return one) over an environment in
 * which mappings fail and come misaligned; any quota limit. */
#include "vp.h"
#include <unistd.h>
#include <pmatomic.h>
#include <sys/mman.h>
#include "quota.h"
#include "slab_arena.h"
#include "env_mmap.h"
#ifndef OPS
#define OPS 5
#endif
#ifndef KINDS
#define KINDS 3
#endif
#define SLAB 65536ul
#define MAXS 4

int
main(void)
{
	struct quota q;
	struct slab_arena a;
	uint64_t limit = vp_range(0, 5) * SLAB;	/* in bytes */
	uint64_t slack = vp_range(0, 63) * 1024;
	memset(&q, 0xa5, sizeof(q));
	quota_init(&q, limit + slack);
	uint64_t prealloc = vp_choose(3) * SLAB - (vp_bool() ? 1000 : 0);
	if (prealloc > 3 * SLAB)
		prealloc = 0;
	env_misalign = MISALIGN;
	env_fail_left = FAILS;
	/* the old interface takes the flags of mmap() itself */
	static const int kinds[] = {
		SLAB_ARENA_PRIVATE, SLAB_ARENA_SHARED | SLAB_ARENA_DONTDUMP, MAP_SHARED, MAP_PRIVATE,
		SLAB_ARENA_PRIVATE | SLAB_ARENA_DONTDUMP, SLAB_ARENA_SHARED,
	};
	int kind = (int)vp_choose(KINDS), flags = kinds[kind];
	env_want_flags = flags & 3;
	if (flags & SLAB_ARENA_FLAG_MARK)
		env_want_flags ^= 3;	/* the bits are the other way round */
	env_want_dontdump = kind == 1 || kind == 4;
	uint64_t pre = prealloc < limit + slack ? prealloc : limit + slack;
	pre = vp_concretize((pre + SLAB - 1) / SLAB) * SLAB;
	memset(&a, 0xa5, sizeof(a));
	int rc = slab_arena_create(&a, &q, prealloc, 1000, flags);
	if (rc != 0) {
		VP_ASSERT(env_failed > 0, "create fails only when the memory cannot be mapped");
		VP_ASSERT(env_mapped_bytes() == 0, "a failed create leaves nothing mapped");
		VP_WITNESS("create-failed");
		return 0;
	}
	VP_ASSERT(env_mapped_bytes() == pre, "create maps the preallocated part only");
	VP_ASSERT(env_advised == (env_want_dontdump ? pre : 0), "the preallocated part is left out of core dumps on request");
	VP_ASSERT(quota_used(&q) == 0, "nothing is charged before a slab is given out");
	char *held[MAXS];
	int nheld = 0, ncached = 0, nnew = 0;
	for (int i = 0; i < OPS; i++) {
		if (vp_bool()) {
			VP_ASSUME(nheld < MAXS);
			int f0 = env_failed;
			size_t u0 = quota_used(&q), m0 = env_mapped_bytes();
			char *p = (char *)slab_map(&a);
			if (p == NULL) {
				VP_ASSERT(ncached == 0, "a cached slab is reused before anything else");
				VP_ASSERT(env_failed > f0 || (uint64_t)(nnew + 1) * SLAB > limit + slack,
					  "map fails only out of quota or out of memory");
				VP_ASSERT(quota_used(&q) == u0, "a failed map leaves the quota as it was");
				VP_ASSERT(env_mapped_bytes() == m0, "a failed map leaves nothing mapped");
				VP_WITNESS("map-failed");
			} else {
				VP_ASSERT(((uintptr_t)p & (SLAB - 1)) == 0, "slabs are aligned to the slab size");
				for (int k = 0; k < nheld; k++)
					VP_ASSERT(held[k] != p, "a slab is given to one owner at a time");
				VP_ASSERT(vp_accessible(p, SLAB), "the whole slab is mapped");
				for (size_t o = 0; o < SLAB; o += PAGE)
					VP_ASSERT(!vp_is_poisoned(p + o), "every page of the slab is mapped");
				p[0] = 1;
				p[SLAB - 1] = 1;
				if (ncached > 0) {
					ncached--;
					VP_ASSERT(quota_used(&q) == u0, "reuse of a cached slab charges nothing");
					VP_ASSERT(env_mapped_bytes() == m0, "reuse of a cached slab maps nothing");
					VP_WITNESS("reused");
				} else {
					nnew++;
					VP_ASSERT(quota_used(&q) == u0 + SLAB, "a new slab is charged to the quota");
					VP_ASSERT((uint64_t)nnew * SLAB <= limit + slack, "the arena never exceeds the quota");
					VP_ASSERT(env_mapped_bytes() == m0 + ((uint64_t)nnew * SLAB <= pre ? 0 : SLAB),
						  "a new slab comes from the preallocated part while it lasts");
					VP_WITNESS("new");
				}
				held[nheld++] = p;
			}
		} else {
			VP_ASSUME(nheld > 0);
			int k = (int)vp_choose(nheld);
			slab_unmap(&a, held[k]);
			held[k] = held[--nheld];
			held[nheld] = NULL;
			ncached++;
		}
		VP_ASSERT(quota_used(&q) == (uint64_t)nnew * SLAB, "the quota usage is the number of distinct slabs");
	}
	VP_ASSERT(env_advised == (env_want_dontdump ? env_mapped_bytes() : 0), "all the memory is left out of core dumps on request");
	while (nheld > 0)
		slab_unmap(&a, held[--nheld]);
	slab_arena_mprotect(&a);
	VP_ASSERT(env_readonly == pre, "the preallocated part is made read-only");
	slab_arena_destroy(&a);
	VP_ASSERT(env_mapped_bytes() == 0, "destroy unmaps everything");
	VP_WITNESS("end");
	return 0;
}
