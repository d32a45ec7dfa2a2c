/* A tree of nodes with keys, the sum of keys and the number of nodes kept by augmentation. */
#include "vp.h"
#include <assert.h>
#include <unistd.h>
#define MAYBE_UNUSED __attribute__((unused))
#ifdef TREE_ARG
#define RB_CMP_TREE_ARG
#endif
#include "rb.h"
#ifndef NMAX
#define NMAX 26
#endif
struct nd {
	uint64_t key;
	rb_node(struct nd) link;
	uint64_t sum;
	uint32_t cnt;
};
typedef rb_tree(struct nd, int tag;) tree_t;
/* A search key: it matches the nodes with keys in a range. */
struct skey {
	uint64_t lo, hi;
};
static int bad_tree;
#ifdef TREE_ARG
#define TARG tree_t *t,
#define TCHECK do { if (t->tag != 77) bad_tree = 1; } while (0)
#else
#define TARG
#define TCHECK do {} while (0)
#endif
static inline int
nd_cmp(TARG const struct nd *a, const struct nd *b)
{
	TCHECK;
	return a->key < b->key ? -1 : a->key > b->key;
}
static inline int
nd_cmp_key(TARG struct skey k, const struct nd *b)
{
	TCHECK;
	return k.hi < b->key ? -1 : k.lo > b->key;
}
static void
nd_aug(struct nd *n, const struct nd *l, const struct nd *r)
{
	n->sum = n->key + (l ? l->sum : 0) + (r ? r->sum : 0);
	n->cnt = 1 + (l ? l->cnt : 0) + (r ? r->cnt : 0);
}
rb_gen_ext_key_aug(MAYBE_UNUSED static inline, t_, tree_t, struct nd, link, nd_cmp, struct skey, nd_cmp_key, nd_aug)

static struct nd pool[NMAX + 2];
static tree_t tree;
static struct nd *seq[NMAX + 2];	/* what the tree should hold, in order */
static int n;

#ifdef RB_COMPACT
#define RIGHT(x) ((struct nd *)((uintptr_t)(x)->link.rbn_right_red & ~(uintptr_t)1))
#define RED(x) ((uintptr_t)(x)->link.rbn_right_red & 1)
#define SET(x, r, red) ((x)->link.rbn_right_red = (struct nd *)((uintptr_t)(r) | (red)))
#else
#define RIGHT(x) ((x)->link.rbn_right)
#define RED(x) ((x)->link.rbn_red)
#define SET(x, r, red) ((x)->link.rbn_right = (r), (x)->link.rbn_red = (red))
#endif
#define LEFT(x) ((x)->link.rbn_left)

/*
 * Any tree with bh black nodes on every path: they are the left-leaning
 * encodings of the 2-3 trees.
 */
#ifndef MAX3
#define MAX3 100
#endif
static int threes;	/* nodes with two keys */
static struct nd *
any_tree(int bh)
{
	if (bh == 0)
		return NULL;
	struct nd *l = any_tree(bh - 1);
	VP_ASSUME(n < NMAX);
	struct nd *a = seq[n] = &pool[n];
	a->key = 10 * (uint64_t)n + 9;
	n++;
	struct nd *m = any_tree(bh - 1);
	LEFT(a) = l;
	SET(a, m, 0);
	nd_aug(a, l, m);
	if (threes < MAX3 && vp_choose(2)) {
		threes++;
		VP_ASSUME(n < NMAX);
		struct nd *b = seq[n] = &pool[n];
		b->key = 10 * (uint64_t)n + 9;
		n++;
		struct nd *r = any_tree(bh - 1);
		SET(a, m, 1);
		LEFT(b) = a;
		SET(b, r, 0);
		nd_aug(b, a, r);
		a = b;
	}
	return a;
}

static int at;
static int
check_node(struct nd *x, int parent_red)
{
	if (x == NULL)
		return 0;
	struct nd *l = LEFT(x), *r = RIGHT(x);
	VP_ASSERT(!(RED(x) && parent_red), "no red child of a red node");
	VP_ASSERT(r == NULL || !RED(r), "no red right child");
	int hl = check_node(l, !!RED(x));
	VP_ASSERT(at < n && x == seq[at], "the nodes are those inserted, in order");
	at++;
	int hr = check_node(r, !!RED(x));
	VP_ASSERT(hl == hr, "as many black nodes on every path");
	uint64_t sum = x->key + (l ? l->sum : 0) + (r ? r->sum : 0);
	uint32_t cnt = 1 + (l ? l->cnt : 0) + (r ? r->cnt : 0);
	VP_ASSERT((x->sum == sum) & (x->cnt == cnt), "augmentation is up to date");
	return hl + !RED(x);
}

static void
check_tree(void)
{
	at = 0;
	struct nd *root = tree.rbt_root;
	VP_ASSERT(root == NULL || !RED(root), "the root is black");
	check_node(root, 0);
	VP_ASSERT(at == n, "all nodes inserted are there");
	VP_ASSERT(t_empty(&tree) == (n == 0), "empty");
	VP_ASSERT(t_first(&tree) == (n ? seq[0] : NULL), "the first node");
	VP_ASSERT(t_last(&tree) == (n ? seq[n - 1] : NULL), "the last node");
	VP_ASSERT(!bad_tree, "the comparison gets the tree");
}
