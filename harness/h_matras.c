/* matras: OPS operations over tiny extents; contents of the head and of every
 * read view, identifiers, and the extents held. MEM: contents. */
#include "vp.h"
#include "matras.h"
#ifdef MEM
#define A_MEM(c, m) VP_ASSERT(c, m)
#define A_ACC(c, m) ((void)0)
#else
#define A_MEM(c, m) ((void)0)
#define A_ACC(c, m) VP_ASSERT(c, m)
#endif
#define MAXB ((EXT / 8) * (EXT / 8) * (EXT / BLK))
#ifndef VIEWS
#define VIEWS 2
#endif
#ifndef FAILS
#define FAILS 1
#endif
#if BLK < 8
typedef uint32_t word;
#else
typedef uint64_t word;
#endif
#define WORDS (BLK / sizeof(word))
/* the extent allocator: a pool of extents, any call may fail */
static char pool[POOL][EXT] __attribute__((aligned(EXT)));
static bool live[POOL];
static int nlive, failed, ncalls, fail_left = FAILS;

static void *
ext_alloc(struct matras_allocator *a)
{
	(void)a;
	ncalls++;
	if (fail_left > 0 && vp_bool()) {
		fail_left--;
		failed++;
		VP_WITNESS("no-memory");
		return NULL;
	}
	for (int i = 0; i < POOL; i++) {
		if (!live[i]) {
			live[i] = true;
			nlive++;
			vp_unprotect(pool[i], EXT);
			return pool[i];
		}
	}
	VP_ASSUME(0);	/* the pool is large enough for what is explored */
	return NULL;
}

static void
ext_free(struct matras_allocator *a, void *p)
{
	(void)a;
	for (int i = 0; i < POOL; i++) {
		if (p == pool[i]) {
			VP_ASSERT(live[i], "an extent is freed once");
			live[i] = false;
			nlive--;
			memset(pool[i], 0, EXT);
			vp_protect(pool[i], EXT);
			return;
		}
	}
	VP_ASSERT(0, "only what was allocated is freed");
}

static struct matras_allocator alloc;
static struct matras_stats stats;
static struct matras m;
static struct matras_view view[VIEWS];
static bool open[VIEWS];
/* contents: any word for every block, of the head (0) and of the views */
static word val[VIEWS + 1][MAXB];
static unsigned cnt[VIEWS + 1];

/** Write any value into a block. */
static void
put(void *p, unsigned id)
{
	val[0][id] = (word)vp_u64();
	for (unsigned i = 0; i < WORDS; i++)
		((word *)p)[i] = val[0][id] + i;
}

static void
check_view(int v, const struct matras_view *mv)
{
	for (unsigned id = 0; id < cnt[v]; id++) {
		word *p = (word *)(mv ? matras_view_get(&m, mv, id) : matras_get(&m, id));
		for (unsigned i = 0; i < WORDS; i++)
			A_MEM(p[i] == val[v][id] + i, v == 0 ? "a block keeps its contents" : "a read view keeps the contents of its blocks");
		A_MEM(((uintptr_t)p & (BLK - 1)) == 0, "a block is aligned to its size");
	}
}

static void
check(void)
{
	check_view(0, NULL);
	for (int v = 0; v < VIEWS; v++)
		if (open[v])
			check_view(v + 1, &view[v]);
	A_MEM(m.head.block_count == cnt[0], "block count");
	A_ACC(matras_extent_count(&m) == (matras_id_t)(nlive - alloc.num_reserved_extents), "extents held are counted");
	A_ACC(stats.extent_count == matras_extent_count(&m), "statistics count the extents");
	/* what the head needs: the root, and what its blocks lie in */
	unsigned l3 = (cnt[0] + EXT / BLK - 1) / (EXT / BLK), l2 = (l3 + EXT / 8 - 1) / (EXT / 8);
	unsigned need = l3 + l2 + (cnt[0] > 0);
	A_ACC(stats.read_view_extent_count == stats.extent_count - need, "extents kept for read views only are counted");
	int nopen = 0;
	for (int v = 0; v < VIEWS; v++)
		nopen += open[v];
	A_ACC(nopen > 0 || stats.read_view_extent_count == 0, "without read views only the blocks' own extents are held");
}

int
main(void)
{
	for (int i = 0; i < POOL; i++)
		vp_protect(pool[i], EXT);
	memset(&alloc, 0xa5, sizeof(alloc));
	matras_allocator_create(&alloc, EXT, ext_alloc, ext_free);
	memset(&stats, 0xa5, sizeof(stats));
	matras_stats_create(&stats);
	memset(&m, 0xa5, sizeof(m));
	matras_create(&m, BLK, &alloc, &stats);
#ifdef INIT
	/* some blocks to begin with */
	static const unsigned init[] = {INIT};
	unsigned n0 = init[vp_choose(sizeof(init) / sizeof(init[0]))];
	fail_left = 0;
	for (unsigned k = 0; k < n0; k++) {
		matras_id_t id = 4242;
		void *p = matras_alloc(&m, &id);
		A_MEM(p != NULL && id == k, "identifiers are given in order");
		cnt[0]++;
		put(p, id);
	}
	check();
	ncalls = 0;
	fail_left = FAILS;
#endif
	for (int i = 0; i < OPS; i++) {
		vp_merge();
		uint64_t op = vp_choose(6);
		int f0 = failed, c0 = ncalls;
		if (op == 0) {
			/* a block, or a range of blocks */
			unsigned range = vp_bool() ? EXT / BLK : 1;
			matras_id_t id = 4242;
			VP_ASSUME(cnt[0] % range == 0);
			void *p = range == 1 ? matras_alloc(&m, &id) : matras_alloc_range(&m, &id, range);
			if (p == NULL) {
				A_MEM(failed > f0 || cnt[0] + range > MAXB, "refused only out of memory or of identifiers");
				VP_WITNESS("refused");
			} else {
				A_MEM(id == cnt[0], "identifiers are given in order");
				A_MEM(cnt[0] + range <= MAXB, "no more blocks than there can be");
				for (unsigned k = 0; k < range; k++) {
					A_MEM(k == 0 || matras_get(&m, id + k) == (char *)p + k * BLK, "a range is contiguous");
					cnt[0]++;
					put((char *)p + k * BLK, id + k);
				}
				A_MEM(matras_get(&m, id) == p, "an identifier translates to its block");
				VP_WITNESS("allocated");
			}
		} else if (op == 1) {
			/* free the last block or range; the copy it may take is reserved first */
			unsigned range = vp_bool() ? EXT / BLK : 1;
			VP_ASSUME(cnt[0] >= range && cnt[0] % range == 0);
			if (matras_touch_reserve(&m, 1) == 0) {
				int fl = fail_left, nc = ncalls;
				fail_left = 0;
				if (range == 1)
					matras_dealloc(&m);
				else
					matras_dealloc_range(&m, range);
				fail_left = fl;
				A_ACC(nc == ncalls, "what was reserved is enough");
				cnt[0] -= range;
				for (unsigned k = 0; k < range; k++)
					val[0][cnt[0] + k] = 0;
				VP_WITNESS("deallocated");
			} else {
				A_ACC(failed > f0, "reserving fails only out of memory");
			}
		} else if (op == 2 || op == 3) {
			/* write into a block, or into two with the memory reserved */
			VP_ASSUME(cnt[0] > 0);
			unsigned id = (unsigned)vp_choose(cnt[0]);
			int res = op == 3 ? matras_touch_reserve(&m, 2) : -1;
			int fl = fail_left;
			if (res == 0)
				fail_left = 0;
			for (int k = 0; k < (op == 3 ? 2 : 1); k++) {
				c0 = ncalls;
				bool needs = matras_needs_touch(&m, id);
				void *p = k ? (needs ? matras_touch_no_check(&m, id) : matras_get(&m, id)) : matras_touch(&m, id);
				A_ACC((needs && res != 0) || ncalls == c0, "no memory is taken without need, or when it was reserved");
				if (p == NULL) {
					A_MEM(failed > f0, "touch fails only out of memory");
					VP_WITNESS("touch-failed");
				} else {
					A_MEM(p == matras_get(&m, id), "touch returns the block");
					put(p, id);
					VP_WITNESS("touched");
				}
				id = cnt[0] - 1;
			}
			fail_left = fl;
		} else if (op == 4) {
			/* views are created in the order of their slots, when free */
			int v = 0;
			while (v < VIEWS && open[v])
				v++;
			VP_ASSUME(v < VIEWS);
			matras_create_read_view(&m, &view[v]);
			open[v] = true;
			cnt[v + 1] = cnt[0];
			memcpy(val[v + 1], val[0], sizeof(val[0]));
			A_MEM(matras_is_read_view_created(&view[v]), "the view is created");
			A_MEM(ncalls == c0, "a view takes no memory");
			VP_WITNESS("view");
		} else {
			int v = (int)vp_choose(VIEWS);
			VP_ASSUME(open[v]);
			matras_destroy_read_view(&m, &view[v]);
			open[v] = false;
			cnt[v + 1] = 0;
			memset(val[v + 1], 0, sizeof(val[0]));
			A_MEM(!matras_is_read_view_created(&view[v]), "the view is destroyed");
			memset(&view[v], 0, sizeof(view[v]));
			VP_WITNESS("view-destroyed");
		}
		check();
		ncalls = failed = 0;
	}
	if (vp_bool()) {
		matras_reset(&m);
		A_ACC(nlive == alloc.num_reserved_extents && stats.extent_count == 0 && stats.read_view_extent_count == 0, "reset frees everything");
		matras_id_t id;
		fail_left = 0;
		void *p = matras_alloc(&m, &id);
		A_MEM(p != NULL && id == 0 && matras_get(&m, 0) == p, "it can be used after a reset");
	}
	matras_destroy(&m);
	matras_allocator_destroy(&alloc);
	A_ACC(nlive == 0, "destroy frees everything, once");
	VP_WITNESS("end");
	return 0;
}
