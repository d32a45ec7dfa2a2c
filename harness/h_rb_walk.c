/* rb tree: the pre-order walk of any tree, going down in any directions from every node. */
#include "rb_tree.h"
static struct t_walk w;
static int dir;
static int steps;

static struct nd *
next(void)
{
	struct nd *l = NULL, *r = NULL;
	struct nd *x = t_walk_next(&w, dir, &l, &r);
	if (x != NULL)
		VP_ASSERT(l == LEFT(x) && r == RIGHT(x), "the children of the node are shown");
	return x;
}

/* The walk has just come to x: choose where to go, see that it does. */
static struct nd *
sub(struct nd *x)
{
	int d = dir = (int)vp_range(0, RB_WALK_LEFT | RB_WALK_RIGHT);
	struct nd *y = next();
	struct nd *l = LEFT(x), *r = RIGHT(x);
	if (l != NULL && (d & RB_WALK_LEFT)) {
		VP_ASSERT(y == l, "to the left child first");
		y = sub(l);
	}
	if (r != NULL && (d & RB_WALK_RIGHT)) {
		VP_ASSERT(y == r, "to the right child next");
		y = sub(r);
	}
	return y;	/* where it went from the subtree */
}

int
main(void)
{
	memset(&tree, 0xa5, sizeof(tree));
	t_new(&tree);
	tree.tag = 77;
	struct nd *root = tree.rbt_root = any_tree((int)vp_choose(BH + 1));
	t_walk_init(&w, &tree);
	dir = (int)vp_range(0, RB_WALK_LEFT | RB_WALK_RIGHT);
	struct nd *x = next();
	VP_ASSERT(x == root, "from the root, whatever the direction");
	if (x != NULL) {
		x = sub(x);
		VP_ASSERT(x == NULL, "over when all nodes allowed were visited");
		VP_WITNESS("walked");
	}
	VP_WITNESS("end");
	return 0;
}
