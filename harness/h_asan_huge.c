/* small_asan_alloc() and slab_get() of any size: never less than what is asked for. */
#include "vp.h"
#include "env_slab.h"
#undef malloc
#undef free
#undef exit
static size_t asked;
#include "util.h"
void *
env_malloc(size_t size)
{
	VP_ASSERT(size > asked, "there is room for all of the payload");
	VP_WITNESS("allocated");
	vp_end();
}
void env_free(void *p) { (void)p; }
void
env_exit(int rc)
{
	VP_ASSERT(rc != 0, "failure");
	VP_WITNESS("refused");
	vp_end();
}
int
main(void)
{
	size_t align = 1ull << vp_choose(13);
	size_t header = vp_range(0, 64);
	asked = vp_u64();
	env_slab_init(1 << 20);
	if (vp_bool()) {
		small_asan_alloc(asked, align, header);
		return 0;
	}
	VP_ASSERT(slab_get(&env_cache, asked) == NULL && asked > SIZE_MAX / 2, "refused");
	return 0;
}
