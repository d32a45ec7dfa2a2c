/* ASAN build of lsregion: any history with symbolic ids; a flush of one or all
 * vectors after any operation; then perhaps a misuse. */
#include "vp.h"
#include "env_slab.h"
#include "env_malloc.h"
#include "lsregion.h"
#ifdef FLUSH
#define A_MEM(c, m) ((void)0)
#else
#define A_MEM(c, m) VP_ASSERT(c, m)
#endif
static struct lsregion r;
static struct lsregion_svp svp;
static struct { char *p; size_t size; int64_t id; bool flushed; char c; } a[OPS + 1];
static int n, pending;
static char *reserved;
static size_t reserved_size, reserved_align;
static char salt;
static const uint32_t sizes[] = {1, 37, 130};

static void
check(void)
{
	size_t used = 0;
	for (int i = 0; i < n; i++) {
		used += a[i].size;
		for (size_t k = 0; k < a[i].size; k++)
			A_MEM(a[i].p[k] == (char)(salt + a[i].c + (char)k), "a chunk that was not collected is kept");
		A_MEM(vp_is_poisoned(a[i].p + a[i].size), "what follows a chunk is poisoned");
		A_MEM(vp_is_poisoned((char *)((uintptr_t)a[i].p & ~7ull) - 1), "what precedes a chunk is poisoned");
	}
	A_MEM(lsregion_used(&r) == used, "used is the size of the chunks");
	A_MEM(lsregion_total(&r) >= used, "total");
	A_MEM(env_malloc_live == n + pending, "every chunk is a block of its own, freed when it is collected");
}

#ifdef FLUSH
static void
flush(int max)
{
	struct iovec iov[OPS + 2];
	int cnt = max, at = 0;
	int64_t id = lsregion_to_iovec(&r, iov, &cnt, &svp), last = LSLAB_NOT_USED_ID;
	VP_ASSERT(cnt >= 0 && cnt <= max, "no more vectors than asked for");
	for (int i = 0; i < n; i++) {
		if (a[i].flushed)
			continue;
		if (at == cnt) {
			VP_ASSERT(cnt == max, "everything new is flushed while there are vectors left");
			VP_WITNESS("more");
			break;
		}
		VP_ASSERT(iov[at].iov_base == a[i].p && iov[at].iov_len == a[i].size, "chunks are flushed in order");
		at++;
		a[i].flushed = true;
		last = a[i].id;
		VP_WITNESS("flushed");
	}
	VP_ASSERT(at == cnt, "each chunk is flushed once, and nothing else");
	VP_ASSERT(id == last, "the identifier of the last flushed chunk is returned");
}

#else
#define flush(n) ((void)0)
#endif

int
main(void)
{
	small_on_assert_failure = env_on_fail;
	salt = (char)vp_range(0, 255);
	env_slab_init(1 << 20);
	memset(&r, 0xa5, sizeof(r));
	lsregion_create(&r, &env_arena);
	memset(&svp, 0xa5, sizeof(svp));
	lsregion_svp_create(&svp);
	int64_t lastid = 0;
	for (int i = 0; i < OPS; i++) {
		uint64_t op = vp_choose(4);
		if (op == 0 || op == 1) {
			size_t size = sizes[vp_choose(3)], align = op == 0 ? 1 : 16;
			int64_t id = (int64_t)vp_range(0, INT64_MAX);
			VP_ASSUME(id >= lastid);
			if (pending)
				env_expect_fail = size > reserved_size || align != reserved_align;
			char *p = (char *)(op == 0 ? lsregion_alloc(&r, size, id) : lsregion_aligned_alloc(&r, size, align, id));
			VP_ASSERT(!env_expect_fail, "an allocation that is not what was reserved is detected");
			lastid = id;
			VP_ASSERT(((uintptr_t)p & (align - 1)) == 0 && ((uintptr_t)p & (2 * align - 1)) != 0, "aligned as asked");
			VP_ASSERT(!pending || p == reserved, "an allocation gets what was reserved");
			pending = 0;
			reserved = NULL;
			for (size_t k = 0; k < size; k++)
				p[k] = (char)(salt + i * 41 + (char)k);
			a[n].p = p;
			a[n].size = size;
			a[n].id = id;
			a[n].c = (char)(i * 41);
			a[n++].flushed = false;
			VP_WITNESS("allocated");
		} else if (op == 2) {
			env_expect_fail = pending;
			reserved_align = vp_bool() ? 1 : 16;
			reserved_size = 37;
			reserved = (char *)(reserved_align == 1 ? lsregion_reserve(&r, reserved_size) : lsregion_aligned_reserve(&r, reserved_size, reserved_align));
			VP_ASSERT(!env_expect_fail, "a second reservation is detected");
			memset(reserved, 'x', reserved_size);
			pending = 1;
			VP_WITNESS("reserved");
		} else {
			VP_ASSUME(!pending);
			int64_t id = (int64_t)vp_range(0, INT64_MAX);
			lsregion_gc(&r, id);
			int keep = 0;
			for (int k = 0; k < n; k++)
				if (a[k].id > id)
					a[keep++] = a[k];
			if (keep < n)
				VP_WITNESS("collected");
			n = keep;
		}
#ifdef FLUSH
		if (i < OPS - 1 && vp_bool())
			flush(i % 2 ? OPS + 1 : 1);
#endif
		check();
	}
	flush(1);
	flush(OPS + 1);
#ifdef FLUSH
	for (int i = 0; i < n; i++)
		VP_ASSERT(a[i].flushed, "everything gets flushed");
#endif
	flush(OPS + 1);
	lsregion_destroy(&r);
	A_MEM(env_malloc_live == 0, "destroy returns everything");
	VP_WITNESS("end");
	return 0;
}
