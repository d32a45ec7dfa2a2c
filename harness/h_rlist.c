/*
 * rlist: one operation from any arrangement of NE elements in NH lists.  The
 * arrangement is symbolic: every element has a list and a place in it (elements
 * being alike, the places are those in the array).
 * What follows what afterwards is told from lists and places alone.
 */
#include "vp.h"
#include "rlist.h"
struct item {
	uint64_t a;
	struct rlist link;
	uint64_t b;	/* a size that is a power of two is easier to solve */
};
#define NN (NH + NE)
#define FREE 255
/* Heads, then elements linked, then elements linked nowhere. */
static struct item nd[NN];
static uint64_t lab[NN], key[NN];	/* list, place; heads 0 */
static uint64_t lab0[NN], key0[NN];
static int nl;				/* nodes that are heads or were linked */
#define AFTER_ALL (4 * NN)

/* y follows x in the list. */
static uint64_t
succ(int x, int y)
{
	uint64_t c = (lab[x] == lab[y]) & (lab[x] != FREE);
	if (y >= NH)
		c &= key[y] > key[x];
	else
		c &= 1;
	uint64_t hi = y >= NH ? key[y] : 8 * AFTER_ALL;
	for (int z = NH; z < NN; z++)
		if (z != x && z != y)
			c &= !((lab[z] == lab[x]) & (key[z] > key[x]) & (key[z] < hi));
	if (x < NH && y < NH)
		c &= x == y;
	if (x >= NH && x == y)
		c = 0;
	return c;
}

static void
check(const char *fwd, const char *back)
{
	uint64_t ok = 1, okp = 1;
	for (int x = 0; x < NN; x++)
		for (int y = 0; y < NN; y++) {
			uint64_t c = succ(x, y);
			ok &= !c | (nd[x].link.next == &nd[y].link);
			okp &= !c | (nd[y].link.prev == &nd[x].link);
		}
	VP_ASSERT(ok, fwd);
	VP_ASSERT(okp, back);
}

/* Any node that is a head or linked. */
static uint64_t any(void) { return vp_range(0, (uint64_t)nl - 1); }

static uint64_t
any_linked(void)
{
	VP_ASSUME(nl > NH);
	return vp_range(NH, (uint64_t)nl - 1);
}

static uint64_t any_head(void) { return vp_range(0, NH - 1); }

/* Lists and places of a symbolic node. */
static uint64_t
at(const uint64_t *t, uint64_t i)
{
	uint64_t r = 0;
	for (uint64_t k = 0; k < NN; k++)
		r = i == k ? t[k] : r;
	return r;
}

static void
put(uint64_t i, uint64_t l, uint64_t k)
{
	for (uint64_t j = 0; j < NN; j++) {
		lab[j] = i == j ? l : lab[j];
		key[j] = i == j ? k : key[j];
	}
}

static void
lists(void)
{
	nl = NH + (int)vp_choose(NE + 1);
	for (int x = 0; x < NN; x++) {
		nd[x].a = nd[x].b = 7;
		if (x < NH) {
			lab[x] = (uint64_t)x;
			key[x] = 0;
		} else if (x < nl) {
			lab[x] = vp_range(0, NH - 1);
			key[x] = 4 * (uint64_t)x;
		} else {
			lab[x] = FREE;
			nd[x].link.next = (struct rlist *)vp_u64();
			nd[x].link.prev = (struct rlist *)vp_u64();
		}
	}
	for (int x = 0; x < nl; x++) {
		struct rlist *nx = NULL;
		for (int y = 0; y < nl; y++)
			nx = succ(x, y) ? &nd[y].link : nx;
		nd[x].link.next = nx;
	}
	for (int y = 0; y < nl; y++) {
		struct rlist *pv = NULL;
		for (int x = 0; x < nl; x++)
			pv = succ(x, y) ? &nd[x].link : pv;
		nd[y].link.prev = pv;
	}
	memcpy(lab0, lab, sizeof(lab));
	memcpy(key0, key, sizeof(key));
}

/* The place before (or after) node p of its list, for element el. */
static void
insert_at(uint64_t el, uint64_t p, bool after)
{
	uint64_t k = at(key, p), l = at(lab, p);
	if (!after)
		k = p < NH ? AFTER_ALL : k;
	put(el, l, after ? k + 1 : k - 1);
}

static void
traverse(void)
{
	uint64_t l = any_head(), last = 0, n = 0, want = 0, ok = 1;
	for (int x = NH; x < NN; x++)
		want += lab[x] == l;
	struct rlist *head = &nd[l].link, *r;
	struct item *it, *tmp = NULL;
	VP_ASSERT((rlist_empty(head) != 0) == (want == 0), "empty tells whether there are elements");
	switch (vp_choose(6)) {
	case 0:
		rlist_foreach(r, head) {
			uint64_t i = (uint64_t)(rlist_entry(r, struct item, link) - nd);
			ok &= (i >= NH) & (at(lab, i) == l) & (at(key, i) > last);
			last = at(key, i);
			n++;
		}
		break;
	case 1:
		last = AFTER_ALL;
		rlist_foreach_reverse(r, head) {
			uint64_t i = (uint64_t)(rlist_entry(r, struct item, link) - nd);
			ok &= (i >= NH) & (at(lab, i) == l) & (at(key, i) < last);
			last = at(key, i);
			n++;
		}
		break;
	case 2:
		rlist_foreach_entry(it, head, link) {
			uint64_t i = (uint64_t)(it - nd);
			ok &= (i >= NH) & (at(lab, i) == l) & (at(key, i) > last);
			ok &= n > 0 || it == rlist_first_entry(head, struct item, link);
			last = at(key, i);
			if (n + 1 < want)
				ok &= rlist_next_entry(it, link) == (struct item *)((char *)rlist_next(&it->link) - offsetof(struct item, link));
			else
				ok &= it == rlist_last_entry(head, struct item, link);
			n++;
		}
		break;
	case 3:
		last = AFTER_ALL;
		rlist_foreach_entry_reverse(it, head, link) {
			uint64_t i = (uint64_t)(it - nd);
			ok &= (i >= NH) & (at(lab, i) == l) & (at(key, i) < last);
			last = at(key, i);
			struct item *pv = rlist_prev_entry_safe(it, head, link);
			ok &= (pv == NULL) == (n + 1 == want);
			ok &= (pv == NULL) | (pv == rlist_prev_entry(it, link));
			n++;
		}
		break;
	case 4:
		rlist_foreach_entry_safe(it, head, link, tmp) {
			uint64_t i = (uint64_t)(it - nd);
			ok &= (i >= NH) & (at(lab0, i) == l) & (at(key, i) > last);
			last = at(key, i);
			if (vp_bool()) {
				rlist_del_entry(it, link);
				put(i, FREE, at(key, i));
			}
			n++;
		}
		break;
	default:
		last = AFTER_ALL;
		rlist_foreach_entry_safe_reverse(it, head, link, tmp) {
			uint64_t i = (uint64_t)(it - nd);
			ok &= (i >= NH) & (at(lab0, i) == l) & (at(key, i) < last);
			last = at(key, i);
			if (vp_bool()) {
				rlist_del_entry(it, link);
				put(i, FREE, at(key, i));
			}
			n++;
		}
		break;
	}
	VP_ASSERT(ok, "the elements of the list are reached in order");
	VP_ASSERT(n == want, "every element of the list is reached once");
}

int
main(void)
{
	lists();
	uint64_t el, p, a, b;
	uint64_t what = vp_choose(13);
	switch (what) {
	case 0: case 1:		/* insert after or before any node */
		VP_ASSUME(nl < NN);
		el = (uint64_t)nl;
		p = any();
		if (vp_bool()) {
			if (what == 0)
				rlist_add(&nd[p].link, &nd[el].link);
			else
				rlist_add_tail(&nd[p].link, &nd[el].link);
		} else {
			if (what == 0)
				rlist_add_entry(&nd[p].link, &nd[el], link);
			else
				rlist_add_tail_entry(&nd[p].link, &nd[el], link);
		}
		insert_at(el, p, what == 0);
		VP_WITNESS("inserted");
		break;
	case 2:
		el = any_linked();
		if (vp_bool())
			rlist_del(&nd[el].link);
		else
			rlist_del_entry(&nd[el], link);
		VP_ASSERT((nd[el].link.next == &nd[el].link) & (nd[el].link.prev == &nd[el].link), "a deleted element is linked to itself");
		put(el, FREE, 0);
		if (vp_bool())
			rlist_del(&nd[el].link);	/* deleting it again does nothing */
		VP_WITNESS("deleted");
		break;
	case 3: case 4: {
		a = any_head();
		uint64_t some = 0;
		for (int x = NH; x < NN; x++)
			some |= lab[x] == a;
		VP_ASSUME(some);
		struct item *it = vp_bool()
			? (what == 3 ? rlist_shift_entry(&nd[a].link, struct item, link) : rlist_shift_tail_entry(&nd[a].link, struct item, link))
			: rlist_entry(what == 3 ? rlist_shift(&nd[a].link) : rlist_shift_tail(&nd[a].link), struct item, link);
		el = (uint64_t)(it - nd);
		uint64_t k = at(key, el), end = (el >= NH) & (at(lab, el) == a);
		for (int x = NH; x < NN; x++)
			end &= (lab[x] != a) | (what == 3 ? key[x] >= k : key[x] <= k);
		VP_ASSERT(end, "the first or the last element is taken");
		VP_ASSERT((it->link.next == &it->link) & (it->link.prev == &it->link), "it is linked to itself");
		put(el, FREE, 0);
		VP_WITNESS("shifted");
		break;
	}
	case 5: case 6:
		el = any_linked();
		p = any();
		VP_ASSUME(p != el);
		if (vp_bool()) {
			if (what == 5)
				rlist_move(&nd[p].link, &nd[el].link);
			else
				rlist_move_tail(&nd[p].link, &nd[el].link);
		} else {
			if (what == 5)
				rlist_move_entry(&nd[p].link, &nd[el], link);
			else
				rlist_move_tail_entry(&nd[p].link, &nd[el], link);
		}
		insert_at(el, p, what == 5);
		VP_WITNESS("moved");
		break;
	case 7:
		a = any_head();
		b = any_head();
		rlist_swap(&nd[a].link, &nd[b].link);
		for (int x = NH; x < NN; x++)
			lab[x] = lab[x] == a ? b : lab[x] == b ? a : lab[x];
		VP_WITNESS("swapped");
		break;
	case 8: case 9:
		a = any_head();
		b = any_head();
		VP_ASSUME(a != b);
		if (what == 8)
			rlist_splice(&nd[a].link, &nd[b].link);
		else
			rlist_splice_tail(&nd[a].link, &nd[b].link);
		for (int x = NH; x < NN; x++) {
			/* all of the one list precede all of the other */
			key[x] += (lab[x] == a) & (what == 8) ? AFTER_ALL : 0;
			key[x] += (lab[x] == b) & (what == 9) ? AFTER_ALL : 0;
			lab[x] = lab[x] == b ? a : lab[x];
		}
		VP_WITNESS("spliced");
		break;
	case 10: {
		a = any_head();
		b = any_head();
		p = any();
		VP_ASSUME((a != b) & (at(lab, p) == b));
		if (vp_bool()) {	/* what the head holds does not matter: it is discarded */
			uint64_t q = any();
			nd[a].link.next = &nd[q].link;
			nd[a].link.prev = &nd[any()].link;
		}
		rlist_cut_before(&nd[a].link, &nd[b].link, &nd[p].link);
		uint64_t k = p < NH ? AFTER_ALL : at(key, p);
		for (int x = NH; x < NN; x++) {
			lab[x] = lab[x] == a ? FREE : lab[x];
			lab[x] = (lab[x] == b) & (key[x] < k) ? a : lab[x];
		}
		VP_WITNESS("cut");
		break;
	}
	case 11: {
		a = any_head();
		rlist_create(&nd[a].link);
		for (int x = NH; x < NN; x++)
			lab[x] = lab[x] == a ? FREE : lab[x];
		struct rlist head = RLIST_HEAD_INITIALIZER(head);
		VP_ASSERT(rlist_empty(&head), "a new list is empty");
		break;
	}
	default:
		traverse();
		break;
	}
	check("every element is followed by the one that it should be", "every element is preceded by the one that it should be");
	for (int x = 0; x < NN; x++)
		VP_ASSERT((nd[x].a == 7) & (nd[x].b == 7), "the elements themselves are left alone");
	VP_WITNESS("end");
	return 0;
}
