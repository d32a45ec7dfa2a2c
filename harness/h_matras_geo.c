/* matras: address translation for every extent and block size: three extents of
 * blocks are allocated, any identifier in them is translated. */
#include "vp.h"
#include "matras.h"
#define MAXE 8
static char *ext[MAXE];
static int next, nlive;
static size_t esize;

static void *
ext_alloc(struct matras_allocator *a)
{
	(void)a;
	VP_ASSERT(next < MAXE, "no more extents than needed");
	nlive++;
	return ext[next++] = (char *)vp_alloc(esize, 16, 0);
}

static void
ext_free(struct matras_allocator *a, void *p)
{
	(void)a;
	for (int i = 0; i < next; i++) {
		if (p == ext[i]) {
			ext[i] = NULL;
			nlive--;
			vp_dealloc(p);
			return;
		}
	}
	VP_ASSERT(0, "what is freed was allocated");
}

int
main(void)
{
	unsigned le = 4 + (unsigned)vp_choose(MAXLOG - 3), lb = (unsigned)vp_choose(le + 1);
	esize = (size_t)1 << le;
	matras_id_t per = (matras_id_t)1 << (le - lb), id = 0;
	struct matras_allocator alloc;
	struct matras m;
	struct matras_stats stats;
	char *base[3];
	unsigned n = 0;
	memset(&alloc, 0xa5, sizeof(alloc));
	matras_allocator_create(&alloc, esize, ext_alloc, ext_free);
	memset(&stats, 0xa5, sizeof(stats));
	matras_stats_create(&stats);
	memset(&m, 0xa5, sizeof(m));
	matras_create(&m, (matras_id_t)1 << lb, &alloc, &stats);
	/* ids are 32 bit, and there are (extent / 8)^2 extents of blocks at most */
	uint64_t cap = (esize / 8) * (esize / 8);
	VP_ASSUME(cap >= 3);
	for (n = 0; n < 3; n++) {
		id = 4242;
		base[n] = (char *)matras_alloc_range(&m, &id, per);
		VP_ASSERT(base[n] != NULL && id == n * per, "a range of identifiers");
		for (unsigned k = 0; k < n; k++)
			VP_ASSERT(base[k] != base[n], "in an extent of its own");
	}
	int k = (int)vp_choose(3);
	matras_id_t off = (matras_id_t)vp_range(0, per - 1);
	id = (matras_id_t)k * per + off;
	VP_ASSERT(matras_get(&m, id) == base[k] + ((size_t)off << lb), "an identifier translates to its block");
	struct matras_view v;
	matras_create_read_view(&m, &v);
	VP_ASSERT(matras_view_get(&m, &v, id) == base[k] + ((size_t)off << lb), "in a view as well");
	matras_destroy_read_view(&m, &v);
	VP_WITNESS("translated");
	matras_id_t e = matras_extent_count(&m);
	VP_ASSERT((int)e == nlive, "extents held are counted");
	for (; n > 0; n--)
		matras_dealloc_range(&m, per);
	VP_ASSERT(nlive == 0 && matras_extent_count(&m) == 0, "extents go with their last block");
	next = 0;
	VP_ASSERT(matras_alloc(&m, &id) != NULL && id == 0, "one more");
	matras_destroy(&m);
	VP_ASSERT(nlive == 0, "destroy frees everything");
	VP_WITNESS("end");
	return 0;
}
