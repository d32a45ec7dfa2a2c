/* ASAN build of obuf: a request of any size is never granted without room. */
#include "vp.h"
#include "env_slab.h"
#undef malloc
#undef free
#undef exit
static size_t asked;
static bool armed;
#include "obuf.h"
void *
env_malloc(size_t size)
{
	if (!armed)
		return malloc(size);
	VP_ASSERT(size > asked, "there is room for all of the request");
	VP_WITNESS("allocated");
	vp_end();
}
void env_free(void *p) { free(p); }
void
env_exit(int rc)
{
	VP_ASSERT(rc != 0, "failure");
	VP_WITNESS("refused");
	vp_end();
}
int
main(void)
{
	static struct obuf b;
	env_slab_init(1 << 20);
	memset(&b, 0xa5, sizeof(b));
	obuf_create(&b, &env_cache, 64);
	int pos = SMALL_OBUF_IOV_CHECKED_MAX - 2 + (int)vp_choose(4);
	while (b.pos < pos)
		obuf_alloc(&b, b.pos < SMALL_OBUF_IOV_CHECKED_MAX ? 1 : 40);
	asked = vp_u64();
	size_t left = b.capacity[b.pos] - b.iov[b.pos].iov_len;
	armed = true;
	char *p = (char *)(vp_bool() ? obuf_reserve(&b, asked) : obuf_alloc(&b, asked));
	VP_ASSERT(p != NULL, "granted");
	VP_ASSERT(asked <= left, "what is granted without a new block fits into the current one");
	VP_WITNESS("granted");
	return 0;
}
