/* static buffer: every thread has one of its own. */
#include "vp.h"
#include "static.h"
static char *got[2];

static void
thread(void *arg)
{
	int id = (int)(intptr_t)arg;
	VP_ASSERT(static_storage_pos == 0, "a new thread has a new buffer");
	char *p = (char *)static_alloc(8);
	memset(p, 'a' + id, 8);
	char *q = (char *)static_alloc(8);
	memset(q, 'A' + id, 8);
	VP_ASSERT(q == p + 8 && p[0] == 'a' + id && p[7] == 'a' + id, "the other thread does not touch it");
	got[id] = p;
}

int
main(void)
{
	vp_shared(got, sizeof(got));
	char *m = (char *)static_alloc(8);
	memset(m, 'm', 8);
	vp_spawn(thread, (void *)0);
	vp_spawn(thread, (void *)1);
	vp_join();
	VP_ASSERT(got[0] != got[1] && got[0] != m && got[1] != m, "every thread has a buffer of its own");
	VP_ASSERT(m[0] == 'm' && m[7] == 'm' && static_alloc(1) == m + 8, "the other threads do not touch it");
	VP_WITNESS("end");
	return 0;
}
