/* region: contents. OPS operations; every byte ever used is shadowed. */
#include "vp.h"
#include "env_slab.h"
#ifdef ENABLE_ASAN
#include "env_malloc.h"
#endif
#include "region.h"
#define MAXU 4096
#ifndef MAXA
#define MAXA 8
#endif
static struct region r;
static char shadow[MAXU];	/* what the used bytes are, in order of use */
static char known[MAXU];
static uint32_t used;
static struct { char *p; uint32_t size, off, end; } a[MAXA + 1];
static int n;
static char salt;
static const uint32_t sizes[] = {1, 40, 64, 65, 130, 300};
#define NSIZES (sizeof(sizes) / sizeof(sizes[0]))

/* what the callbacks told is in use */
static bool cb;
static size_t cb_used;

static void
on_alloc(struct region *region, size_t size, void *arg)
{
	VP_ASSERT(region == &r && arg == &cb, "callback arguments");
	cb_used += size;
}

static void
on_truncate(struct region *region, size_t to, void *arg)
{
	VP_ASSERT(region == &r && arg == &cb, "callback arguments");
	VP_ASSERT(to <= cb_used, "truncation makes the region smaller");
	cb_used = to;
}

static void
add(char *p, uint32_t size, bool fill)
{
	uint32_t d = (uint32_t)region_used(&r) - used;
	VP_ASSUME(n < MAXA && used + d <= MAXU);
	for (uint32_t i = 0; i < size; i++) {
		if (fill)
			p[i] = (char)(salt + i + n * 37);
		shadow[used + d - size + i] = p[i];
		known[used + d - size + i] = 1;
	}
	a[n].p = p;
	a[n].size = size;
	a[n].off = used + d - size;
	used += d;
	a[n++].end = used;
}

static void
cut(int k)
{
	uint32_t to = k == 0 ? 0 : a[k - 1].end;
	memset(shadow + to, 0, used - to);
	memset(known + to, 0, used - to);
	memset(a + k, 0, sizeof(a[0]) * (n - k));
	n = k;
	used = to;
}

static void
check(void)
{
#ifdef ENABLE_ASAN
	for (int k = 0; k < n; k++) {
		VP_ASSERT(vp_is_poisoned(a[k].p + (a[k].end - a[k].off)), "what follows an allocation is poisoned");
		VP_ASSERT(vp_is_poisoned((char *)((uintptr_t)a[k].p & ~7ull) - 1), "what precedes an allocation is poisoned");
	}
	VP_ASSERT(env_malloc_live == n, "every allocation is a block of its own");
	VP_ASSERT(region_total(&r) >= used, "total");
#endif
	VP_ASSERT(region_used(&r) == used, "used");
	VP_ASSERT(!cb || cb_used == used, "the callbacks tell what is used");
	for (int k = 0; k < n; k++)
		for (uint32_t i = 0; i < a[k].size; i++)
			VP_ASSERT(a[k].p[i] == shadow[a[k].off + i], "contents stay intact");
}

int
main(void)
{
	env_slab_init(1 << 20);
#ifdef ENABLE_ASAN
	small_on_assert_failure = env_on_fail;
#endif
	salt = (char)vp_range(0, 255);
	memset(&r, 0xa5, sizeof(r));
	region_create(&r, &env_cache);
#ifdef ENABLE_ASAN
	cb = vp_bool();
#else
	cb = true;
#endif
	if (cb)
		region_set_callbacks(&r, on_alloc, on_truncate, &cb);
	for (int i = 0; i < OPS; i++) {
		vp_merge();
		uint64_t op = vp_choose(6);
		if (op == 0) {
			uint32_t size = sizes[vp_choose(NSIZES)];
			char *p = (char *)(vp_bool() ? region_alloc(&r, size) : region_alloc_cb(&r, size));
			if (p != NULL)
				add(p, size, true);
			else
				VP_WITNESS("refused");
		} else if (op == 1) {
			uint32_t size = sizes[vp_choose(NSIZES)];
			uint32_t align = vp_bool() ? 8 : 64;
			char *p = (char *)region_aligned_alloc(&r, size, align);
			if (p != NULL) {
				VP_ASSERT(((uintptr_t)p & (align - 1)) == 0, "aligned as asked");
				add(p, size, true);
			}
		} else if (op == 2) {
			size_t room = sizes[vp_choose(NSIZES)], want = room;
			char *p = (char *)region_reserve_cb(&r, &room);
			if (p != NULL) {
				VP_ASSERT(room >= want, "at least what was asked for is reserved");
				for (size_t k = 0; k < room; k++)
					p[k] = 'x';	/* the caller may write all of it */
				uint32_t size = vp_bool() ? (uint32_t)want : (uint32_t)room;
				if (size > 0) {
					char *q = (char *)region_alloc(&r, size);
					VP_ASSERT(p == q, "allocating reserved memory does not move it");
					add(p, size, true);
				}
				VP_WITNESS("reserved");
			}
		} else if (op == 3) {
			int k = (int)vp_choose(n + 1);
			region_truncate(&r, k == 0 ? 0 : a[k - 1].end);
			cut(k);
			VP_WITNESS("truncated");
		} else if (op == 4) {
			/* join the last bytes: all of them, or from any allocation
			 * on, or a byte more or less */
			VP_ASSUME(n > 0);
			int k = (int)vp_choose(n);
			uint32_t size = used - a[k].off;
			uint64_t w = vp_choose(4);
			if (w == 1)
				size++;
			else if (w == 2)
				size--;
			else if (w == 3)
				size = used;
			VP_ASSUME(size > 0 && size <= used);
			char *p = (char *)region_join(&r, size);
			if (p == NULL) {
				VP_ASSERT(env_failed > 0, "join fails only out of memory");
				VP_WITNESS("join-failed");
			} else {
				for (uint32_t i = 0; i < size; i++)
					if (known[used - size + i])
						VP_ASSERT(p[i] == shadow[used - size + i], "the last bytes are joined in order");
				if (region_used(&r) != used) {
					VP_ASSERT(region_used(&r) - used == size, "joining takes the size of the joined chunk");
					VP_ASSUME(n < MAXA && used + size <= MAXU);
					for (uint32_t i = 0; i < size; i++) {
						shadow[used + i] = shadow[used - size + i];
						known[used + i] = known[used - size + i];
					}
					a[n].p = p;
					a[n].size = 0;	/* checked above; padding is unknown */
					a[n].off = used;
					used += size;
					a[n++].end = used;
					VP_WITNESS("joined");
				} else {
					VP_WITNESS("contiguous");
				}
			}
		} else {
			if (vp_bool())
				region_reset(&r), cb_used = 0;	/* may be not told */
			else
				region_free(&r);
			cut(0);
		}
		check();
		env_failed = env_nmaps = env_nunmaps = 0;
	}
	region_destroy(&r);
	VP_ASSERT(slab_cache_used(&env_cache) == 0, "destroy returns everything");
#ifdef ENABLE_ASAN
	VP_ASSERT(env_malloc_live == 0, "destroy returns everything");
#endif
	VP_WITNESS("end");
	return 0;
}
