/* util.h arithmetic: every value; features: any outcome of the system calls. */
#include "vp.h"
#include "util.h"
#include "small_features.h"
#undef sysconf
static long env_pagesize;
long
env_sysconf(int name)
{
	VP_ASSERT(name == _SC_PAGESIZE, "page size");
	return env_pagesize;
}
static int env_errno;
int *env_errno_location(void) { return &env_errno; }
char *env_strerror_r(int e, char *buf, size_t n) { (void)e; buf[0] = 0; (void)n; return buf; }
static int nmaps, nunmaps, madvised;
static size_t mapped;
static char page[8];
void *
env_mmap(void *hint, size_t size, int prot, int flags, int fd, long off)
{
	(void)hint; (void)prot; (void)flags; (void)fd; (void)off;
	nmaps++;
	mapped = size;
	return vp_bool() ? (void *)page : (void *)-1;
}
int
env_munmap(void *p, size_t size)
{
	VP_ASSERT((p == (void *)page) & (size == mapped), "what was mapped is unmapped");
	nunmaps++;
	return 0;
}
int
env_madvise(void *p, size_t size, int advice)
{
	VP_ASSERT((p == (void *)page) & (size == mapped) & (advice == 16), "the mapped page is tried");
	madvised = vp_bool() ? 1 : 2;
	return madvised == 1 ? 0 : -1;
}

int
main(void)
{
	uint64_t op = vp_choose(6);
	if (op == 0) {
		uint64_t size = vp_u64(), align = 1ull << vp_choose(64);
		VP_ASSUME(size <= SIZE_MAX - align);
		uint64_t r = small_align(size, align);
		VP_ASSERT((r & (align - 1)) == 0, "a multiple of the alignment");
		VP_ASSERT((r >= size) & (r - size < align), "the nearest one not less than the size");
		vp_log("align", r);
	} else if (op == 1) {
		uint64_t size = vp_u64(), align = 1ull << vp_choose(64);
		uint64_t r = small_align_down(size, align);
		VP_ASSERT((r & (align - 1)) == 0, "a multiple of the alignment");
		VP_ASSERT((r <= size) & (size - r < align), "the nearest one not greater than the value");
		vp_log("down", r);
	} else if (op == 2) {
		uint64_t size = vp_u64();
		VP_ASSUME(size <= SIZE_MAX / 2 + 1);
		uint64_t r = small_round(size);
		VP_ASSERT((r & (r - 1)) == 0, "a power of two");
		VP_ASSERT((r >= size) & ((size < 2) | (r / 2 < size)), "the nearest one not less than the size");
		VP_ASSERT((size != 0) | (r == 0), "nothing for nothing");
		vp_log("round", r);
	} else if (op == 3) {
		uint64_t size = vp_u64();
		VP_ASSUME(size > 0);
		uint64_t r = small_lb(size);
		VP_ASSERT((r < 64) & ((size >> (r & 63)) == 1), "the binary logarithm");
		vp_log("lb", r);
	} else if (op == 4) {
		env_pagesize = (long)vp_u64();
		long r = small_getpagesize();
		VP_ASSERT(r == (env_pagesize < 1 ? 4096 : env_pagesize), "the page size of the system, or 4096 if it is unknown");
	} else {
		env_pagesize = 4096;
		unsigned feature = (unsigned)vp_u64();
		bool r = small_test_feature(feature);
		VP_ASSERT((feature < FEATURE_MAX) | !r, "no unknown feature is supported");
		if (feature == SMALL_FEATURE_DONTDUMP) {
			VP_ASSERT(r == (madvised == 1), "supported if and only if the system accepts it");
			VP_ASSERT((madvised != 0) == (nunmaps == 1), "the probe is unmapped");
			VP_WITNESS("probed");
		} else {
			VP_ASSERT(nmaps == 0, "no probe for an unknown feature");
		}
		VP_WITNESS("feature");
	}
	VP_WITNESS("end");
	return 0;
}
