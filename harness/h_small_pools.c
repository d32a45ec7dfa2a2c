/* small allocator with groups of up to 32 pools: which pool serves which size
 * when any pool of a group, or any two, are activated by waste, and when the
 * empty ones are put out of use because memory runs out. */
#include "vp.h"
#include "env_slab.h"
#include "small.h"
#define MAXO 4096
static struct small_alloc alloc;
static uint32_t npools;
static uint32_t osize[512], group_end[512], group_start[512];
static bool active[512];
struct obj { char *p; uint32_t size, pool, used; };
static struct obj o[MAXO];
static int n;
static uint64_t waste[512], count[512], slabsize[512];

/** The pool that a size class is served by: the smallest one in use in its group that holds it. */
static uint32_t
serving(uint32_t k)
{
	while (!active[k])
		k++;
	return k;
}

static bool
alloc_one(uint32_t k, uint32_t size)
{
	uint32_t u = serving(k);
	int f0 = env_failed;
	char *p = (char *)smalloc(&alloc, size);
	if (env_failed > f0) {
		/* memory was short: pools without objects and with little waste, except for the last of a group, were put out of use */
		VP_WITNESS("short");
		for (uint32_t i = 0; i < npools; i++)
			if (active[i] && count[i] == 0 && i != group_end[i] && waste[i] < slabsize[i] / 4 / 4) {
				active[i] = false;
				VP_WITNESS("out-of-use");
			}
		u = serving(k);
	}
	if (p == NULL) {
		VP_ASSERT(env_failed > f0, "refused only when the arena is exhausted");
		return false;
	}
	VP_ASSUME(n < MAXO);
	struct mslab *slab = (struct mslab *)((uintptr_t)p & ~((uintptr_t)slab_order_size(&env_cache, alloc.small_mempool_cache[k].pool.slab_order) - 1));
	VP_ASSERT(slab->mempool == &alloc.small_mempool_cache[u].pool, "the object comes from the smallest pool in use that holds it");
	VP_ASSERT(vp_accessible(p, osize[k]), "the whole object is memory");
	memset(p, 0x11, osize[k]);
	struct obj x = {p, size, k, u};
	o[n++] = x;
	count[u]++;
	waste[k] += osize[u] - osize[k];
	if (u != k && waste[k] >= slabsize[k] / 4)
		active[k] = true;
	return true;
}

static void
free_one(int j)
{
	struct obj x = o[j];
	smfree(&alloc, x.p, x.size);
	count[x.used]--;
	waste[x.pool] -= osize[x.used] - osize[x.pool];
	o[j] = o[--n];
}

/** Allocations of the class until it has a pool of its own. */
static void
activate(uint32_t k)
{
	uint32_t size = (uint32_t)vp_range(k == 0 ? 1 : osize[k - 1] + 1, osize[k]);
	for (int i = 0; i < MANY && !active[k]; i++)
		if (!alloc_one(k, i < 2 ? size : i % 2 ? osize[k] : k == 0 ? 1 : osize[k - 1] + 1))
			break;
	if (active[k])
		VP_WITNESS("activated");
}

static void
check(void)
{
	for (uint32_t i = 0; i < npools; i++) {
		struct small_alloc_info info;
		small_alloc_info(&alloc, NULL, osize[i], &info);
		VP_ASSERT(!info.is_large && info.real_size == osize[serving(i)], "the size is served by the smallest pool in use that holds it");
		small_alloc_info(&alloc, NULL, i == 0 ? 1 : osize[i - 1] + 1, &info);
		VP_ASSERT(!info.is_large && info.real_size == osize[serving(i)], "the size is served by the smallest pool in use that holds it");
		VP_ASSERT(alloc.small_mempool_cache[i].waste == waste[i], "waste is what live objects take beyond their best fit");
		VP_ASSERT(mempool_count(&alloc.small_mempool_cache[i].pool) == count[i], "live objects are counted");
	}
}

int
main(void)
{
	env_slab_init(1 << 20);
	float actual = 0;
	memset(&alloc, 0xa5, sizeof(alloc));
	static const float factors[] = {1.05f, 1.01f, 1.1f};
	float factor = factors[vp_choose(sizeof(factors) / sizeof(factors[0]))];
	small_alloc_create(&alloc, &env_cache, OBJMIN, GRAN, factor, &actual);
	npools = alloc.small_mempool_cache_size;
	VP_ASSERT(npools > 31 && npools < 512, "many pools");
	uint32_t start = 0;
	for (uint32_t i = 0; i < npools; i++) {
		struct mempool *m = &alloc.small_mempool_cache[i].pool;
		osize[i] = m->objsize;
		VP_ASSERT(i == 0 || osize[i] > osize[i - 1], "sizes grow");
		if (i > 0 && (m->slab_order != alloc.small_mempool_cache[i - 1].pool.slab_order || i - start == 32)) {
			for (uint32_t k = start; k < i; k++)
				group_end[k] = i - 1;
			start = i;
		}
		group_start[i] = start;
		slabsize[i] = slab_order_size(&env_cache, m->slab_order);
	}
	for (uint32_t k = start; k < npools; k++)
		group_end[k] = npools - 1;
	for (uint32_t i = 0; i < npools; i++)
		active[i] = i == group_end[i];
	check();
	uint32_t a = (uint32_t)vp_choose(npools);
	/* perhaps an object of a smaller size that stays */
	uint64_t pre = vp_choose(3);
	uint32_t c = pre == 1 ? group_start[a] : a - 1;
	if (pre > 0) {
		VP_ASSUME(a > group_start[a] && (pre == 1 || c != group_start[a]));
		alloc_one(c, osize[c]);
	}
	activate(a);
	check();
	static const int ds[] = {0, 1, -1, 2, -7, 15, -15, 29};
	int d = ds[vp_choose(NDS)];
	int b = (int)a + d;
	VP_ASSUME(b >= (int)group_start[a] && b <= (int)group_end[a]);
	if (b != (int)a) {
		activate(b);
		check();
	}
	/* everything of one pool, or everything, is freed, and memory runs out */
	uint32_t f = vp_bool() ? a : (uint32_t)b;
	for (int i = n - 1; i >= 0; i--)
		if (o[i].pool == f || o[i].used == f)
			free_one(i);
	check();
	while (alloc_one(npools - 1, osize[npools - 1]))
		;
	check();
	while (n > 0)
		free_one(n / 2);
	check();
	small_alloc_destroy(&alloc);
	VP_ASSERT(slab_cache_used(&env_cache) == 0, "destroy returns every slab");
	VP_WITNESS("end");
	return 0;
}
