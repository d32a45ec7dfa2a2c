/* mmap()/munmap()/madvise() of the environment: every mapping may fail, may be
 * misaligned for the caller, and every page of it must be unmapped at most
 * once; touching an unmapped page is a violation.  The sources are compiled
 * with mmap & co. renamed to these. */
#include <sys/types.h>
#define PAGE 4096ul
#define MAXMAP 12
static struct { char *base; size_t size, unmapped; } env_map[MAXMAP];
static int env_nmap, env_failed, env_fail_left;
static bool env_misalign;
/* what the user asked for: 1 shared, 2 private; exclude from core dumps */
static int env_want_flags;
static bool env_want_dontdump;
static size_t env_advised;
static char *env_raw[MAXMAP];
#ifdef ENV_ADJACENT
static char *env_space, *env_lo, *env_hi;
#endif

static size_t
env_mapped_bytes(void)
{
	size_t s = 0;
	for (int i = 0; i < env_nmap; i++)
		s += env_map[i].size - env_map[i].unmapped;
	return s;
}

void *
env_mmap(void *hint, size_t size, int prot, int flags, int fd, off_t off)
{
	VP_ASSERT(hint == NULL && fd == -1 && off == 0, "anonymous mapping");
	VP_ASSERT((prot & 3) == 3, "readable and writable");
	VP_ASSERT((flags & 0x20) != 0 && ((flags & 1) != 0) != ((flags & 2) != 0), "anonymous, private or shared");
	VP_ASSERT(env_want_flags == 0 || (flags & 3) == env_want_flags, "the memory is shared or private as requested");
	VP_ASSERT(size > 0 && size % PAGE == 0, "whole pages");
	if (env_fail_left > 0 && vp_bool()) {
		env_fail_left--;
		env_failed++;
		VP_WITNESS("mmap-failed");
		return (void *)-1;
	}
	VP_ASSUME(env_nmap < MAXMAP);
	size_t skip = 0;
	if (env_misalign) {
		uint64_t k = vp_choose(3);
		skip = k == 0 ? 0 : k == 1 ? PAGE : 65536 - PAGE;
		if (skip)
			VP_WITNESS("misaligned");
	}
	char *p;
#ifdef ENV_ADJACENT
	/* mappings follow each other in one piece of address space, up or down */
	if (env_space == NULL) {
		env_space = (char *)vp_alloc(ENV_ADJACENT, 1 << 18, 1);
		vp_protect(env_space, ENV_ADJACENT);
		env_lo = env_hi = env_space + ENV_ADJACENT / 2;
	}
	if (env_nmap == 0 || vp_bool()) {
		p = env_hi;
		VP_ASSUME(size <= (size_t)(env_space + ENV_ADJACENT - env_hi));
		env_hi += size;
	} else {
		VP_ASSUME(size <= (size_t)(env_lo - env_space));
		env_lo -= size;
		p = env_lo;
		VP_WITNESS("below");
	}
	vp_unprotect(p, size);
#else
	p = (char *)vp_alloc(size + skip, 1 << 18, 1);
	env_raw[env_nmap] = p;
	if (skip)
		vp_protect(p, skip);
#endif
	env_map[env_nmap].base = p + skip;
	env_map[env_nmap].size = size;
	env_map[env_nmap].unmapped = 0;
	env_nmap++;
	return p + skip;
}

int
env_munmap(void *a, size_t size)
{
	char *p = (char *)a;
	VP_ASSERT(size > 0 && size % PAGE == 0 && (uintptr_t)p % PAGE == 0, "whole pages are unmapped");
	/* the range may span the mappings the arena asked for, not more */
	for (int i = 0; i < env_nmap; i++) {
		if (p < env_map[i].base || p >= env_map[i].base + env_map[i].size)
			continue;
		VP_ASSERT(p + size <= env_map[i].base + env_map[i].size, "munmap stays inside one mapping");
		for (size_t o = 0; o < size; o += PAGE)
			VP_ASSERT(!vp_is_poisoned(p + o), "no page is unmapped twice");
		vp_protect(p, size);
		env_map[i].unmapped += size;
		return 0;
	}
	VP_ASSERT(false, "munmap of memory that was never mapped");
	return -1;
}

int
env_madvise(void *p, size_t n, int advice)
{
	VP_ASSERT(env_want_dontdump && advice == 16, "only memory to be left out of core dumps is advised");
	VP_ASSERT(vp_accessible((char *)p, n), "only what is mapped is advised");
	env_advised += n;
	return 0;
}

static size_t env_readonly;
int
env_mprotect(void *a, size_t n, int prot)
{
	char *p = (char *)a;
	VP_ASSERT((uintptr_t)p % PAGE == 0 && prot == 1, "whole pages are made read-only");
	for (size_t o = 0; o < n; o += PAGE)
		VP_ASSERT(vp_accessible(p + o, 1) && !vp_is_poisoned(p + o), "only what is mapped is made read-only");
	env_readonly += n;
	return 0;
}
