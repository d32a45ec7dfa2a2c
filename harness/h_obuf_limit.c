/* obuf: the limit of the number of vectors. */
#include "vp.h"
#include "env_malloc.h"
#include "env_slab.h"
#include "obuf.h"
static struct obuf b;
static char src[256];

int
main(void)
{
	env_slab_init(1ull << 40);
	memset(&b, 0xa5, sizeof(b));
	obuf_create(&b, &env_cache, 1);
	uint64_t size = 0;
	char *last = NULL;
	int cnt = 0;
	struct obuf_svp svp;
	/* fill one vector after another; the last one perhaps not to the end */
	uint64_t first = vp_range(1, 20);
	uint64_t slack = vp_range(0, 3);
	bool cb = vp_bool();
	for (;;) {
		uint64_t want = cnt == 0 ? first : b.capacity[b.pos] - b.iov[b.pos].iov_len + 1;
		char *p = (char *)(!cb ? obuf_alloc(&b, want) : obuf_alloc_cb(&b, want));
		if (p == NULL)
			break;
		size += want;
		cnt++;
		VP_ASSERT(cnt <= SMALL_OBUF_IOV_MAX && obuf_iovcnt(&b) == cnt, "every vector that does not fit opens a new one");
		VP_ASSERT(obuf_size(&b) == size, "size");
		if (cnt == SMALL_OBUF_IOV_MAX) {
			svp = obuf_create_svp(&b);
			uint64_t left = b.capacity[b.pos] - b.iov[b.pos].iov_len;
			VP_ASSERT(left >= 4, "room");
			want = left - slack;
			p = (char *)obuf_alloc(&b, want);
			VP_ASSERT(p != NULL, "what fits is not refused");
			size += want;
		}
		last = p;
	}
	VP_ASSERT(cnt == SMALL_OBUF_IOV_MAX, "refused when there are no more vectors");
	VP_ASSERT(obuf_size(&b) == size && obuf_iovcnt(&b) == cnt, "a refused allocation adds nothing");
	VP_ASSERT(obuf_reserve(&b, slack + 1) == NULL, "refused when there are no more vectors");
	uint64_t n = vp_range(0, 8);
	memset(src, 'a', sizeof(src));
	uint64_t done = obuf_dup(&b, src, vp_concretize(n));
	VP_ASSERT(done == (n < slack ? n : slack), "as much is copied as there is room for");
	VP_ASSERT(obuf_size(&b) == size + done, "size");
	VP_WITNESS("full");
	obuf_rollback_to_svp(&b, &svp);
	VP_ASSERT(obuf_size(&b) == svp.used && obuf_alloc(&b, 1) != NULL, "usable after a rollback");
	(void)last;
	obuf_destroy(&b);
	VP_ASSERT((slab_cache_used(&env_cache) == 0) & (quota_used(&env_quota) == 0) & (env_malloc_live == 0), "destroy returns everything");
	VP_WITNESS("end");
	return 0;
}
