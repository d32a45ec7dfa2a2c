/* matras_dealloc() with a read view and no memory for the copy. */
#include "vp.h"
#include "matras.h"
#define POOL 24
static char pool[POOL][16] __attribute__((aligned(16)));
static bool live[POOL], held[POOL];
static bool no_memory;

static void *
ext_alloc(struct matras_allocator *a)
{
	(void)a;
	if (no_memory)
		return NULL;
	for (int i = 0; i < POOL; i++)
		if (!live[i]) {
			live[i] = true;
			return pool[i];
		}
	VP_ASSUME(0);
	return NULL;
}

static void
ext_free(struct matras_allocator *a, void *p)
{
	(void)a;
	live[((char *)p - pool[0]) / 16] = false;
}

int
main(void)
{
	struct matras_allocator alloc;
	struct matras m;
	struct matras_view v;
	matras_id_t id;
	memset(&alloc, 0xa5, sizeof(alloc));
	matras_allocator_create(&alloc, 16, ext_alloc, ext_free);
	memset(&m, 0xa5, sizeof(m));
	matras_create(&m, 8, &alloc, NULL);
	int n = 1 + (int)vp_choose(8);
	for (int i = 0; i < n; i++)
		matras_alloc(&m, &id);
	matras_create_read_view(&m, &v);
	memcpy(held, live, sizeof(live));
	if (vp_bool())
		matras_touch(&m, (matras_id_t)vp_choose(n));
	no_memory = true;
	matras_dealloc(&m);
	VP_WITNESS("deallocated");
	for (int i = 0; i < POOL; i++)
		VP_ASSERT(!held[i] || live[i], "a read view keeps its extents when a block is freed and there is no memory to copy");
	VP_WITNESS("end");
	return 0;
}
