/* small_asan_alloc(): layout, poison and the magic for every alignment, header
 * size and address malloc() may return. */
#include "vp.h"
#undef malloc
#undef free
static char *env_block, *env_raw;
static size_t env_size;
static int env_live;
void *
env_malloc(size_t size)
{
	size_t k = 16 * vp_choose(KMAX);	/* not necessarily aligned by more than 16 */
	env_raw = (char *)vp_alloc(k + size, 4096, 0);
	env_block = env_raw + k;
	env_size = size;
	env_live++;
	return env_block;
}
void
env_free(void *p)
{
	VP_ASSERT(p == env_block && env_live == 1, "what was allocated is freed, once");
	env_live--;
	vp_dealloc(env_raw);
}
#include "util.h"

static bool corrupted;
static void
on_fail(const char *filename, int line, const char *func, const char *expr)
{
	(void)filename; (void)line; (void)func; (void)expr;
	corrupted = true;
}

SMALL_NO_SANITIZE_ADDRESS int
main(void)
{
	small_on_assert_failure = on_fail;
	size_t align = 1ull << vp_choose(MAXLOG + 1);
	size_t header = (size_t)vp_choose(5) * 7 + (vp_bool() ? 1 : 0);
	size_t size = vp_concretize(vp_range(0, MAXSIZE));
	char *h = (char *)small_asan_alloc(size, align, header);
	char *p = (char *)small_asan_payload_from_header(h);
	VP_ASSERT(!corrupted, "no false alarm");
	VP_ASSERT(small_asan_header_from_payload(p) == h, "the header is found from the payload");
	VP_ASSERT(((uintptr_t)h & 7) == 0, "the header is aligned");
	VP_ASSERT(((uintptr_t)p & (align - 1)) == 0, "aligned as asked");
	VP_ASSERT(((uintptr_t)p & (2 * align - 1)) != 0, "not aligned more than asked");
	VP_ASSERT(h >= env_block && h + header <= p && p + size <= env_block + env_size, "everything is inside the block");
	for (size_t i = 0; i < size; i++) {
		VP_ASSERT(!vp_is_poisoned(p + i), "the payload is accessible");
		p[i] = (char)(i + 1);
	}
	VP_ASSERT(vp_is_poisoned(h - 1), "what precedes the header is poisoned");
	char *m = (char *)((uintptr_t)p & ~7ull);	/* poison ends at a multiple of 8 */
	VP_ASSERT(h + header <= m, "the header is before the magic");
	for (char *q = h; q < m; q++)
		VP_ASSERT(vp_is_poisoned(q), "what precedes the payload is poisoned");
	for (char *q = p + size; q < env_block + env_size; q++)
		VP_ASSERT(vp_is_poisoned(q), "what follows the payload is poisoned");
	for (size_t i = 0; i < header; i++)
		h[i] = (char)(i ^ 0x55);	/* the allocator's own data */
	VP_ASSERT(small_asan_payload_from_header(h) == p, "the payload is found from the header");
	VP_ASSERT(small_asan_header_from_payload(p) == h, "the header is found from the payload");
	bool change = false;
	if (p > m && vp_bool()) {
		/* a write out of bounds to what cannot be poisoned */
		size_t at = (size_t)vp_choose(p - m);
		char c = (char)vp_range(0, 255);
		change = c != m[at];
		m[at] = c;
		VP_WITNESS("overwritten");
	}
	for (size_t i = 0; i < size; i++)
		VP_ASSERT(p[i] == (char)(i + 1), "the contents are kept");
	small_asan_free(h);
	VP_ASSERT(corrupted == change, "a write before the payload is detected when it is freed");
	VP_ASSERT(env_live == 0, "it is freed");
	VP_WITNESS("end");
	return 0;
}
