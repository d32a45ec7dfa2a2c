/* rb tree: an insertion of any key into, or the removal of any node from, any tree. */
#include "rb_tree.h"

int
main(void)
{
	memset(&tree, 0xa5, sizeof(tree));
	t_new(&tree);
	tree.tag = 77;
	int bh = (int)vp_choose(BH + 1);
	tree.rbt_root = any_tree(bh);
	if (bh < BH || n < 3)
		check_tree();
	int next = n;
	for (int op = 0; op < OPS; op++) {
		if (vp_bool()) {
			struct nd *x = &pool[next++];
			x->key = vp_range(0, 10 * NMAX);
			for (int i = 0; i < n; i++)
				VP_ASSUME(x->key != seq[i]->key);
			t_insert(&tree, x);
			int p = n;
			while (p > 0 && x->key < seq[p - 1]->key) {
				seq[p] = seq[p - 1];
				p--;
			}
			seq[p] = x;
			n++;
			VP_WITNESS("inserted");
		} else {
			VP_ASSUME(n > 0);
			int p = (int)vp_choose((uint64_t)n);
			t_remove(&tree, seq[p]);
			n--;
			for (int i = p; i < n; i++)
				seq[i] = seq[i + 1];
			VP_WITNESS("removed");
		}
		check_tree();
	}
	VP_WITNESS("end");
	return 0;
}
