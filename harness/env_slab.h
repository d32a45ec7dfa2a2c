/* Stand-in for the slab arena under the real slab cache: K aligned slabs of SZ
 * bytes, any call of slab_map() may fail (at most env_fail_left times), pages
 * are garbage when mapped and must not be touched when unmapped. */
#include <unistd.h>
#include <pmatomic.h>
#include <sys/mman.h>
#include <pthread.h>
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"
#ifndef ENV_SZ
#define ENV_SZ 512
#endif
#ifndef ENV_K
#define ENV_K 2
#endif
#ifndef ENV_FAILS
#define ENV_FAILS 0
#endif
#include "small_config.h"
#ifdef ENABLE_ASAN
/* every block comes from malloc(), which ends the process when it fails */
static int env_nmapped, env_nmaps, env_nunmaps, env_failed;
static struct quota env_quota;
static struct slab_arena env_arena;
static struct slab_cache env_cache;
static void
env_slab_init(uint64_t quota_limit)
{
	memset(&env_quota, 0xa5, sizeof(env_quota));
	quota_init(&env_quota, quota_limit);
	memset(&env_arena, 0xa5, sizeof(env_arena));
	slab_arena_create(&env_arena, &env_quota, 0, 65536, 0);
	memset(&env_cache, 0xa5, sizeof(env_cache));
	slab_cache_create(&env_cache, &env_arena);
}
static bool env_expect_fail;
static void
env_on_fail(const char *filename, int line, const char *func, const char *expr)
{
	(void)filename; (void)line; (void)func; (void)expr;
	VP_ASSERT(env_expect_fail, "no false alarm");
	VP_WITNESS("detected");
	vp_end();
}
#else
static char env_pool[ENV_K][ENV_SZ] __attribute__((aligned(ENV_SZ)));
static bool env_mapped[ENV_K];
static int env_nmapped, env_nmaps, env_nunmaps, env_failed, env_fail_left = ENV_FAILS;
static struct quota env_quota;
static struct slab_arena env_arena;
static struct slab_cache env_cache;

void *
slab_map(struct slab_arena *arena)
{
	VP_ASSERT(arena == &env_arena, "the right arena");
	if (env_fail_left > 0 && vp_bool()) {
		env_fail_left--;
		env_failed++;
		VP_WITNESS("map-failed");
		return NULL;
	}
	for (int i = 0; i < ENV_K; i++) {
		if (!env_mapped[i]) {
			env_mapped[i] = true;
			env_nmapped++;
			env_nmaps++;
			vp_unprotect(env_pool[i], ENV_SZ);
			return env_pool[i];
		}
	}
	env_failed++;
	return NULL;
}

void
slab_unmap(struct slab_arena *arena, void *ptr)
{
	VP_ASSERT(arena == &env_arena, "the right arena");
	for (int i = 0; i < ENV_K; i++) {
		if (ptr == env_pool[i]) {
			VP_ASSERT(env_mapped[i], "a slab is returned to the arena once");
			env_mapped[i] = false;
			env_nmapped--;
			env_nunmaps++;
			memset(env_pool[i], 0xa5, ENV_SZ);
			vp_protect(env_pool[i], ENV_SZ);
			return;
		}
	}
	VP_ASSERT(0, "only a mapped slab is returned to the arena");
}

static void
env_slab_init(uint64_t quota_limit)
{
	memset(env_pool, 0xa5, sizeof(env_pool));
	for (int i = 0; i < ENV_K; i++)
		vp_protect(env_pool[i], ENV_SZ);
	memset(&env_quota, 0xa5, sizeof(env_quota));
	quota_init(&env_quota, quota_limit);
	env_arena.slab_size = ENV_SZ;
	env_arena.quota = &env_quota;
	memset(&env_cache, 0xa5, sizeof(env_cache));
	slab_cache_create(&env_cache, &env_arena);
}

/** Index of the arena slab that p points into, -1 if none. */
static int
env_slab_of(const void *p)
{
	for (int i = 0; i < ENV_K; i++)
		if ((const char *)p >= env_pool[i] && (const char *)p < env_pool[i] + ENV_SZ)
			return i;
	return -1;
}
#endif /* ENABLE_ASAN */
