/* slab_arena_create with arbitrary sizes. */
#include "vp.h"
#include <unistd.h>
#include <pmatomic.h>
#include <sys/mman.h>
#include "quota.h"
#include "slab_arena.h"

static uint64_t want_size, want_align, mapped, misaligned;
static uint64_t calls, live_lo, live_hi;
/* addresses only: the memory is not touched by create/destroy */
void *
env_mmap(void *hint, size_t size, int prot, int flags, int fd, off_t off)
{
	(void)hint; (void)prot; (void)flags; (void)fd; (void)off;
	calls++;
	VP_ASSERT(size >= want_size && size <= want_size + want_align, "the mapping is as large as the preallocated part");
	if (vp_bool())
		return (void *)-1;
	VP_ASSERT(live_lo == live_hi, "nothing else is mapped");
	live_lo = calls == 1 && vp_bool() ? (1ull << 45) + 4096 * vp_range(1, 1 << 19) : (1ull << 45) * (1 + calls);
	live_hi = live_lo + size;
	return (void *)live_lo;
}
int
env_munmap(void *p, size_t size)
{
	uint64_t a = (uint64_t)p;
	VP_ASSERT(a == live_lo || a + size == live_hi, "only an edge of the mapping is cut off");
	VP_ASSERT(a >= live_lo && a + size <= live_hi && size > 0, "within the mapping");
	if (a == live_lo)
		live_lo += size;
	else
		live_hi = a;
	return 0;
}
int env_madvise(void *p, size_t n, int advice) { (void)p; (void)n; (void)advice; return 0; }
int env_mprotect(void *p, size_t n, int prot) { (void)p; (void)n; (void)prot; return 0; }

int
main(void)
{
	struct quota q;
	struct slab_arena a;
	uint64_t total = vp_range(0, QUOTA_MAX), prealloc = vp_u64();
	uint32_t slab_size = (uint32_t)vp_range(0, 1u << 31);
	memset(&q, 0xa5, sizeof(q));
	quota_init(&q, total);
	uint64_t ss = 65536;
	/* the power of two not below slab_size */
	ss = vp_choose(16);
	ss = 65536ull << ss;
	VP_ASSUME(slab_size <= ss && (ss == 65536 || slab_size > ss / 2));
	uint64_t pre = prealloc < quota_total(&q) ? prealloc : quota_total(&q);
	pre = (pre + ss - 1) / ss * ss;
	want_size = pre;
	want_align = ss;
	memset(&a, 0xa5, sizeof(a));
	int rc = slab_arena_create(&a, &q, prealloc, slab_size, SLAB_ARENA_PRIVATE);
	VP_ASSERT(a.slab_size == ss, "the slab size is rounded up to a power of two of at least 64 KB");
	if (pre == 0)
		VP_ASSERT(calls == 0 && rc == 0, "an empty arena maps nothing");
	VP_ASSERT((rc == 0) == (live_hi - live_lo == pre), "create succeeds iff the preallocated part is mapped");
	if (rc == 0) {
		VP_ASSERT((live_lo & (ss - 1)) == 0, "and aligned to the slab size");
		slab_arena_destroy(&a);
	}
	VP_ASSERT(live_lo == live_hi, "nothing stays mapped");
	VP_WITNESS("end");
	return 0;
}
