/* rb tree: every search in any tree, with a key that matches any range of nodes (or none). */
#include "rb_tree.h"

static struct nd *stop_at;
static int visited, start;
static struct nd *
cb(tree_t *t, struct nd *x, void *arg)
{
	VP_ASSERT(t == &tree && arg == &visited, "the callback gets the tree and the argument");
	VP_ASSERT(start + visited < n && x == seq[start + visited], "iteration goes on in order");
	visited++;
	return x == stop_at ? x : NULL;
}
static struct nd *
rcb(tree_t *t, struct nd *x, void *arg)
{
	VP_ASSERT(t == &tree && arg == &visited, "the callback gets the tree and the argument");
	VP_ASSERT(start - visited >= 0 && x == seq[start - visited], "iteration goes on in reverse order");
	visited++;
	return x == stop_at ? x : NULL;
}

static int
place(struct nd *x)
{
	for (int i = 0; i < n; i++)
		if (seq[i] == x)
			return i;
	return -1;
}

enum { LAST_OR_NEXT, LAST_OR_PREV, FIRST_OR_NEXT, FIRST_OR_PREV, LESS, GREATER, ANY };
/* The node at p (-1: none) is the one wanted for the key. */
static void
check_found(int what, struct skey k, struct nd *x)
{
	int p = place(x);
	VP_ASSERT(x == NULL || p >= 0, "a node of the tree is found");
	uint64_t match = x != NULL ? (k.lo <= x->key) & (x->key <= k.hi) : 0;
	uint64_t first = x != NULL ? p == 0 || seq[p - 1]->key < k.lo : 0;		/* none before it matches */
	uint64_t last = x != NULL ? p == n - 1 || seq[p + 1]->key > k.hi : 0;		/* none after it matches */
	uint64_t next = x != NULL ? (x->key > k.hi) & (p == 0 || seq[p - 1]->key < k.lo) : 0;	/* the first greater; none match */
	uint64_t prev = x != NULL ? (x->key < k.lo) & (p == n - 1 || seq[p + 1]->key > k.hi) : 0;
	uint64_t all_less = n == 0 || seq[n - 1]->key < k.lo;
	uint64_t all_greater = n == 0 || seq[0]->key > k.hi;
	switch (what) {
	case LAST_OR_NEXT:
		VP_ASSERT(x == NULL ? all_less : (match & last) | next, "the last that matches or the successor");
		break;
	case LAST_OR_PREV:
		VP_ASSERT(x == NULL ? all_greater : (match & last) | prev, "the last that matches or the predecessor");
		break;
	case FIRST_OR_NEXT:
		VP_ASSERT(x == NULL ? all_less : (match & first) | next, "the first that matches or the successor");
		break;
	case FIRST_OR_PREV:
		VP_ASSERT(x == NULL ? all_greater : (match & first) | prev, "the first that matches or the predecessor");
		break;
	case LESS:
		VP_ASSERT(x == NULL ? n == 0 || seq[0]->key >= k.lo : (x->key < k.lo) & (p == n - 1 || seq[p + 1]->key >= k.lo), "the closest less");
		break;
	case GREATER:
		VP_ASSERT(x == NULL ? n == 0 || seq[n - 1]->key <= k.hi : (x->key > k.hi) & (p == 0 || seq[p - 1]->key <= k.hi), "the closest greater");
		break;
	default:
		if (x != NULL)
			VP_ASSERT(match, "what is found matches");
		else
			for (int i = 0; i < n; i++)
				VP_ASSERT((seq[i]->key < k.lo) | (seq[i]->key > k.hi), "found if any matches");
	}
}

int
main(void)
{
	memset(&tree, 0xa5, sizeof(tree));
	t_new(&tree);
	tree.tag = 77;
	tree.rbt_root = any_tree((int)vp_choose(BH + 1));
	struct skey k;
	k.lo = vp_range(0, 10 * NMAX);
	k.hi = vp_range(0, 10 * NMAX);
	VP_ASSUME(k.lo <= k.hi);
	struct t_iterator it;
	struct nd *x = NULL;
	bool pos = true;	/* the iterator is placed */
	switch (vp_choose(13)) {
	case 0: check_found(ANY, k, t_search(&tree, k)); pos = false; VP_WITNESS("searched"); break;
	case 1: check_found(LAST_OR_NEXT, k, t_nsearch(&tree, k)); pos = false; break;
	case 2: check_found(FIRST_OR_PREV, k, t_psearch(&tree, k)); pos = false; break;
	case 3: {
		bool got = t_isearch(&tree, k, &it);
		x = t_iterator_get(&it);
		VP_ASSERT(got == (x != NULL), "tells whether it is found");
		check_found(ANY, k, x);
		break;
	}
	case 4: t_isearch_le(&tree, k, &it); check_found(LAST_OR_PREV, k, t_iterator_get(&it)); break;
	case 5: t_isearch_ge(&tree, k, &it); check_found(FIRST_OR_NEXT, k, t_iterator_get(&it)); break;
	case 6: t_isearch_lt(&tree, k, &it); check_found(LESS, k, t_iterator_get(&it)); break;
	case 7: t_isearch_gt(&tree, k, &it); check_found(GREATER, k, t_iterator_get(&it)); break;
	case 8: t_ifirst(&tree, &it); VP_ASSERT(t_iterator_get(&it) == (n > 0 ? seq[0] : NULL), "the first node"); break;
	case 9: t_ilast(&tree, &it); VP_ASSERT(t_iterator_get(&it) == (n > 0 ? seq[n - 1] : NULL), "the last node"); break;
	case 10: {
		static struct nd other;
		other.key = k.lo;
		bool got = t_icreate(&tree, &other, &it);
		x = t_iterator_get(&it);
		VP_ASSERT(got == (x != NULL), "tells whether it is found");
		uint64_t in = 0;
		for (int i = 0; i < n; i++)
			in |= seq[i]->key == k.lo;
		VP_ASSERT(x != NULL ? (x->key == k.lo) & (place(x) >= 0) : !in, "an iterator at the node");
		break;
	}
	default: {
		pos = false;
		VP_ASSUME(n > 0);
		start = (int)vp_choose((uint64_t)n);
		VP_ASSERT(t_next(&tree, seq[start]) == (start + 1 < n ? seq[start + 1] : NULL), "the next node");
		VP_ASSERT(t_prev(&tree, seq[start]) == (start > 0 ? seq[start - 1] : NULL), "the previous node");
		int s = (int)vp_choose((uint64_t)n + 1);
		stop_at = s < n ? seq[s] : NULL;
		bool fwd = vp_bool(), whole = vp_bool();
		if (whole)
			VP_ASSUME(start == (fwd ? 0 : n - 1));
		x = fwd ? t_iter(&tree, whole ? NULL : seq[start], cb, &visited) : t_reverse_iter(&tree, whole ? NULL : seq[start], rcb, &visited);
		int want = fwd ? n - start : start + 1, upto = fwd ? s - start + 1 : start - s + 1;
		bool stopped = stop_at != NULL && upto > 0;
		VP_ASSERT(x == (stopped ? stop_at : NULL), "what the callback returns is returned");
		VP_ASSERT(visited == (stopped ? upto : want), "all nodes up to the one it is stopped at are visited");
		VP_WITNESS("iterated");
		break;
	}
	}
	if (pos) {
		/* From wherever it is, in any direction. */
		int p = place(t_iterator_get(&it));
		for (int i = 0; i < STEPS && p >= 0; i++) {
			VP_ASSERT(t_iterator_get(&it) == seq[p], "the iterator is where it should be");
			if (vp_bool()) {
				VP_ASSERT(t_inext(&it) == seq[p], "inext returns the node that it leaves");
				p = p + 1 < n ? p + 1 : -1;
			} else {
				VP_ASSERT(t_iprev(&it) == seq[p], "iprev returns the node that it leaves");
				p = p - 1;
			}
		}
		if (p >= 0) {
			VP_ASSERT(t_iterator_get(&it) == seq[p], "the iterator is where it should be");
		} else {
			VP_ASSERT(t_iterator_get(&it) == NULL, "the iterator is over");
			VP_ASSERT((vp_bool() ? t_inext(&it) : t_iprev(&it)) == NULL, "the iterator stays over");
			VP_WITNESS("over");
		}
	}
	VP_ASSERT(!bad_tree, "the comparison gets the tree");
	VP_WITNESS("end");
	return 0;
}
