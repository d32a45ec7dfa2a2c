/* The whole stack: two slab caches on one arena and one quota, a small
 * allocator, a mempool, a region, an ibuf and an obuf on the first cache, a
 * region on the second, an lsregion on the arena. OPS operations of any
 * component, mmap and malloc failing at any point, any quota limit; then the
 * components are destroyed, starting with any of them. */
#include "vp.h"
#include <unistd.h>
#include <pmatomic.h>
#include <sys/mman.h>
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"
#include "small.h"
#include "region.h"
#include "lsregion.h"
#include "ibuf.h"
#include "obuf.h"
#include "env_mmap.h"
#ifndef OPS
#define OPS 3
#endif
#define SLAB 65536ul
#define MAXO 12
#define MAXB 8
#define UNIT(x) (((x) + 1023) / 1024 * 1024)

/* blocks from malloc: their sizes make up the rest of the quota usage */
#undef malloc
#undef free
static struct { void *p; size_t size; } blk[MAXB];
static int nblk;
static int malloc_fails = FAILS;
void *
env_malloc(size_t size)
{
	if (malloc_fails > 0 && vp_bool()) {
		malloc_fails--;
		env_failed++;
		VP_WITNESS("malloc-failed");
		return NULL;
	}
	VP_ASSUME(nblk < MAXB);
	void *p = malloc(size);
	blk[nblk].p = p;
	blk[nblk++].size = size;
	return p;
}
void
env_free(void *p)
{
	int i = 0;
	while (i < nblk && blk[i].p != p)
		i++;
	VP_ASSERT(i < nblk, "only a live block is freed");
	blk[i] = blk[--nblk];
	blk[nblk].p = NULL;
	blk[nblk].size = 0;
	free(p);
}

static struct quota quota;
static struct slab_arena arena;
static struct slab_cache ca, cb;
static struct small_alloc alloc;
static struct mempool pool;
static struct region ra, rb;
static struct ibuf ibuf;
static struct obuf obuf;
static struct lsregion ls;

enum { SMALL, POOL, RA, RB, IBUF, OBUF, LS, NOWNERS };
static struct { int owner; char *p; uint32_t size; uint64_t mark, id; } o[MAXO + 1];
static int n;
static bool gone[NOWNERS];
static uint64_t salt;
static int64_t id;

static void
add(int owner, void *ptr, uint32_t size, uint64_t mark)
{
	VP_ASSUME(n < MAXO);
	char *p = (char *)ptr;
	VP_ASSERT(vp_accessible(p, size), "the memory exists");
	VP_ASSERT(!vp_is_poisoned(p) & !vp_is_poisoned(p + size - 1), "the memory is mapped");
	for (int i = 0; i < n; i++)
		VP_ASSERT(p + size <= o[i].p || o[i].p + o[i].size <= p, "memory is given out once");
	o[n].owner = owner;
	o[n].p = p;
	o[n].size = size;
	o[n].mark = mark;
	o[n].id = n;
	uint64_t t = salt + (uintptr_t)p;
	memcpy(p, &t, 8);
	memcpy(p + size - 8, &t, 8);
	n++;
}

static void
intact(int i)
{
	uint64_t t = salt + (uintptr_t)o[i].p;
	VP_ASSERT((memcmp(o[i].p, &t, 8) == 0) & (memcmp(o[i].p + o[i].size - 8, &t, 8) == 0), "contents stay intact");
}

static void
drop(int i)
{
	for (n--; i < n; i++)
		o[i] = o[i + 1];
	memset(&o[n], 0, sizeof(o[n]));
}

/** Forget what the owner gave out and is at or behind the mark. */
static void
drop_from(int owner, uint64_t mark)
{
	for (int i = n - 1; i >= 0; i--)
		if (o[i].owner == owner && o[i].mark > mark)
			drop(i);
}

static void
check(void)
{
	for (int i = 0; i < n; i++)
		intact(i);
	size_t large = 0;
	for (int i = 0; i < nblk; i++)
		large += UNIT(blk[i].size);
	VP_ASSERT(quota_used(&quota) == env_mapped_bytes() + large, "the quota is charged for what is taken from the system");
	VP_ASSERT(quota_used(&quota) <= quota_total(&quota), "usage is within the limit");
	slab_cache_check(&ca);
	slab_cache_check(&cb);
}

static void
destroy(int owner)
{
	switch (owner) {
	case SMALL: small_alloc_destroy(&alloc); break;
	case POOL: mempool_destroy(&pool); break;
	case RA: region_destroy(&ra); break;
	case RB: region_destroy(&rb); break;
	case IBUF: ibuf_destroy(&ibuf); break;
	case OBUF: obuf_destroy(&obuf); break;
	case LS: lsregion_destroy(&ls); break;
	}
	for (int i = n - 1; i >= 0; i--)
		if (o[i].owner == owner) {
			if (owner == SMALL && o[i].size > alloc.objsize_max)
				continue;	/* large objects are the caller's to free */
			drop(i);
		}
	gone[owner] = true;
	check();
}

static const uint32_t sizes[] = {100, 40000, 70000};

int
main(void)
{
	uint64_t limit = vp_range(LO, HI) * 1024;
	memset(&quota, 0xa5, sizeof(quota));
	quota_init(&quota, limit);
	env_fail_left = FAILS;
	salt = vp_u64();
	memset(&arena, 0xa5, sizeof(arena));
	VP_ASSUME(slab_arena_create(&arena, &quota, 0, SLAB, SLAB_ARENA_PRIVATE) == 0);
	memset(&ca, 0xa5, sizeof(ca));
	slab_cache_create(&ca, &arena);
	memset(&cb, 0xa5, sizeof(cb));
	slab_cache_create(&cb, &arena);
	float actual;
	memset(&alloc, 0xa5, sizeof(alloc));
	small_alloc_create(&alloc, &ca, 64, 64, 2.0f, &actual);
	memset(&pool, 0xa5, sizeof(pool));
	mempool_create(&pool, &ca, 1000);
	memset(&ra, 0xa5, sizeof(ra));
	region_create(&ra, &ca);
	memset(&rb, 0xa5, sizeof(rb));
	region_create(&rb, &cb);
	memset(&ibuf, 0xa5, sizeof(ibuf));
	ibuf_create(&ibuf, &ca, 1000);
	memset(&obuf, 0xa5, sizeof(obuf));
	obuf_create(&obuf, &ca, 1000);
	memset(&ls, 0xa5, sizeof(ls));
	lsregion_create(&ls, &arena);
	for (int k = 0; k < OPS; k++) {
		vp_merge();
		int f0 = env_failed;
		int owner = (int)vp_choose(NOWNERS);
		uint32_t size = owner == POOL ? 1000 : sizes[vp_choose(3)];
		void *p = NULL;
		bool taken = true;
		switch (owner) {
		case SMALL:
			if (vp_bool()) {
				p = smalloc(&alloc, size);
			} else {
				taken = false;
				int i = 0;
				while (i < n && (o[i].owner != SMALL || o[i].size != size))
					i++;
				VP_ASSUME(i < n);
				intact(i);
				smfree(&alloc, o[i].p, size);
				drop(i);
				VP_WITNESS("freed");
			}
			break;
		case POOL:
			if (vp_bool()) {
				p = mempool_alloc(&pool);
			} else {
				taken = false;
				int i = 0;
				while (i < n && o[i].owner != POOL)
					i++;
				VP_ASSUME(i < n);
				mempool_free(&pool, o[i].p);
				drop(i);
			}
			break;
		case RA:
		case RB: {
			struct region *r = owner == RA ? &ra : &rb;
			if (vp_bool()) {
				p = region_alloc(r, size);
			} else {
				taken = false;
				VP_ASSUME((size == sizes[0]) & (region_used(r) > 0));
				uint64_t to = 0;
				if (vp_bool())	/* all but the last allocation */
					for (int i = 0; i < n; i++)
						if (o[i].owner == owner && o[i].mark < region_used(r))
							to = o[i].mark;
				region_truncate(r, to);
				drop_from(owner, to);
				VP_WITNESS("truncated");
			}
			break;
		}
		case IBUF:
			/* a buffer is one object: what is in it may move */
			if (vp_bool()) {
				int i = 0;
				while (i < n && o[i].owner != IBUF)
					i++;
				if (i < n) {
					intact(i);
					size_t used = ibuf_used(&ibuf);
					p = ibuf_alloc(&ibuf, size);
					uint64_t t = salt + (uintptr_t)o[i].p;
					if (p != NULL) {
						VP_ASSERT((memcmp(ibuf.rpos, &t, 8) == 0) & (memcmp(ibuf.rpos + used - 8, &t, 8) == 0), "contents move along");
						VP_ASSERT(ibuf_used(&ibuf) == used + size, "the new part follows");
						drop(i);
						p = ibuf.rpos;
						size += used;
						VP_WITNESS("moved");
					}
				} else {
					p = ibuf_alloc(&ibuf, size);
				}
			} else {
				taken = false;
				VP_ASSUME((size == sizes[0]) & (ibuf_used(&ibuf) > 0));
				drop_from(IBUF, 0);
				if (vp_bool())
					ibuf_reset(&ibuf);
				else
					ibuf_reinit(&ibuf);
				ibuf_shrink(&ibuf);
			}
			break;
		case OBUF:
			if (vp_bool()) {
				p = obuf_alloc(&obuf, size);
			} else {
				taken = false;
				VP_ASSUME((size == sizes[0]) & (obuf_size(&obuf) > 0));
				obuf_reset(&obuf);
				drop_from(OBUF, 0);
			}
			break;
		case LS:
			if (vp_bool()) {
				p = lsregion_alloc(&ls, size, ++id);
			} else {
				taken = false;
				VP_ASSUME((size == sizes[0]) & (lsregion_used(&ls) > 0));
				int64_t to = (int64_t)vp_choose(id) + 1;
				lsregion_gc(&ls, to);
				for (int i = n - 1; i >= 0; i--)
					if (o[i].owner == LS && o[i].mark <= (uint64_t)to)
						drop(i);
				VP_WITNESS("collected");
			}
			break;
		}
		if (p != NULL) {
			add(owner, p, size, owner == RA ? region_used(&ra) : owner == RB ? region_used(&rb) : owner == LS ? (uint64_t)id : 1);
		} else if (taken) {
			/* out of memory, or another slab would exceed the limit */
			uint64_t need = size < SLAB / 2 ? SLAB : UNIT(4 * (uint64_t)size + SLAB);
			if (owner == IBUF)	/* it grows by doubling */
				need += UNIT(4 * ibuf_used(&ibuf));
			if (owner == OBUF)
				need += UNIT(4 * obuf_size(&obuf));
			VP_ASSERT((env_failed > f0) | (quota_used(&quota) + need > limit), "refused only out of memory or quota");
			VP_WITNESS("refused");
		}
		check();
	}
	bool back = vp_bool();
	for (int k = 0; k < NOWNERS; k++)
		destroy(back ? NOWNERS - 1 - k : k);
	while (n > 0) {
		smfree(&alloc, o[n - 1].p, o[n - 1].size);
		drop(n - 1);
	}
	check();
	VP_ASSERT((slab_cache_used(&ca) == 0) & (slab_cache_used(&cb) == 0), "every block is returned");
	VP_ASSERT(nblk == 0, "every large block is returned");
	slab_cache_destroy(&ca);
	slab_cache_destroy(&cb);
	VP_ASSERT(quota_used(&quota) == env_mapped_bytes(), "only the slabs of the arena stay charged");
	slab_arena_destroy(&arena);
	VP_ASSERT(env_mapped_bytes() == 0, "every page is unmapped");
	VP_WITNESS("end");
	return 0;
}
