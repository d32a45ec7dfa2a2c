/*
 * rb tree: paths as long as a tree that fits into the address space can have.
 * Iterators see nothing but the path from the root, so only the path is built;
 * what hangs off it is left out.
 */
#include "rb_tree.h"
#define MAXH 128
static struct nd path[MAXH];

/* The fewest nodes of a tree in which the longest path has h nodes: along it
 * black and red nodes alternate, and there are no other red nodes. */
static uint64_t
fewest(int h)
{
	int b = h / 2;
	return h % 2 == 0 ? (2ull << b) - 2 : (1ull << b) + (2ull << b) - 2;
}

static int
longest(void)
{
	int h = 0;
	while (fewest(h + 1) <= (1ull << 47) / sizeof(path[0].link))
		h++;
	return h;
}

int
main(void)
{
	memset(&tree, 0xa5, sizeof(tree));
	t_new(&tree);
	tree.tag = 77;
	/* Calibration: trees of two black levels. */
	VP_ASSERT(fewest(1) == 1 && fewest(2) == 2 && fewest(3) == 4 && fewest(4) == 6, "the fewest nodes");
	int max = longest();
	VP_ASSERT(max < MAXH, "the longest path is not longer than the harness has room for");
	int h = (int)vp_concretize(vp_range(1, (uint64_t)max));
	bool zigzag = vp_bool();
	uint64_t lo = 0, hi = 1ull << 62;
	for (int i = 0; i < h; i++) {
		struct nd *x = &path[i];
		/* From a black node to its red left child, from it to either. */
		bool right = zigzag && i % 2 == 1;
		x->key = zigzag ? (right ? lo + 1 : hi - 1) : 1000 - (uint64_t)i;
		if (zigzag) {
			if (right)
				lo = x->key;
			else
				hi = x->key;
		}
		struct nd *next = i + 1 < h ? &path[i + 1] : NULL;
		LEFT(x) = right ? NULL : next;
		SET(x, right ? next : NULL, i % 2 == 1);
	}
	tree.rbt_root = &path[0];
	struct nd *end = &path[h - 1];
	struct skey k = {end->key, end->key};
	struct t_iterator it;
	switch (vp_choose(6)) {
	case 0:
		VP_ASSUME(!zigzag);
		t_ifirst(&tree, &it);
		break;
	case 1: VP_ASSERT(t_icreate(&tree, end, &it), "found"); break;
	case 2: VP_ASSERT(t_isearch(&tree, k, &it), "found"); break;
	case 3: t_isearch_le(&tree, k, &it); break;
	case 4: t_isearch_ge(&tree, k, &it); break;
	default: {
		struct t_walk w;
		struct nd *l, *r, *x = NULL;
		t_walk_init(&w, &tree);
		for (int i = 0; i < h; i++) {
			x = t_walk_next(&w, RB_WALK_LEFT | RB_WALK_RIGHT, &l, &r);
			VP_ASSERT(x == &path[i], "the walk goes down the path");
		}
		VP_ASSERT(t_walk_next(&w, RB_WALK_LEFT | RB_WALK_RIGHT, &l, &r) == NULL, "and ends");
		VP_WITNESS("walked");
		return 0;
	}
	}
	VP_ASSERT(t_iterator_get(&it) == end, "the iterator is at the end of the path");
	if (!zigzag && vp_bool()) {
		for (int i = h - 1; i >= 0; i--)
			VP_ASSERT(t_inext(&it) == &path[i], "and iterates up the path");
		VP_ASSERT(t_iterator_get(&it) == NULL, "to the last node");
	}
	VP_WITNESS("end");
	return 0;
}
