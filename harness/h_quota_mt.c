/* quota shared by NT threads: every interleaving of their atomic accesses. */
#include "vp.h"
#include <unistd.h>
#include <pmatomic.h>
#include "quota.h"
#ifndef NT
#define NT 2
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef TMAX
#define TMAX 63
#endif
#define UNITS(x) (((x) / QUOTA_UNIT_SIZE) + ((x) % QUOTA_UNIT_SIZE != 0))

static struct quota q;
static uint64_t ini, lim2;
static struct thr {
	uint64_t op[OPS], size[OPS];
	int64_t rc[OPS];
	int st[OPS];	/* 0 not called yet, 1 in progress, 2 returned */
	bool held[OPS];	/* a use that is (perhaps) still charged */
	int nsnap[OPS];
	/* at every moment of the call: what may be charged at most, and the limits that may be in force */
	struct snap { uint64_t used; bool old, new; } snap[OPS][2 * NT * OPS + 2];
} th[NT];

/*
 * A call starts or ends: a new moment for all the calls in progress. Calls in progress may or may not have taken
 * effect, so this is the most that can be charged, and the lowest limit that can be in force.
 */
static void
moment(void)
{
	struct snap now = {0, true, false};
	for (int k = 0; k < NT; k++)
		for (int i = 0; i < OPS; i++) {
			struct thr *t = &th[k];
			if (t->st[i] == 0)
				continue;
			if (t->op[i] == 2 && (t->st[i] == 1 || t->rc[i] >= 0)) {
				now.new = true;
				if (t->st[i] == 2)
					now.old = false;
			}
		}
	for (int k = 0; k < NT; k++)
		for (int i = 0; i < OPS; i++) {
			struct thr *t = &th[k];
			if (t->st[i] != 1)
				continue;
			struct snap *s = &t->snap[i][t->nsnap[i]++];
			*s = now;
			/* what the others may hold */
			for (int kk = 0; kk < NT; kk++)
				for (int ii = 0; ii < OPS; ii++)
					if ((kk != k || ii != i) && th[kk].held[ii])
						s->used += UNITS(th[kk].size[ii]);
		}
}

static void
worker(void *arg)
{
	struct thr *t = (struct thr *)arg;
	int last = -1;
	for (int i = 0; i < OPS; i++) {
		t->st[i] = 1;
		t->held[i] = t->op[i] == 0;
		moment();
		if (t->op[i] == 0) {
			t->rc[i] = quota_use(&q, t->size[i]);
			if (t->rc[i] >= 0)
				last = i;
			else
				t->held[i] = false;
		} else if (t->op[i] == 1) {
			/* give back what this thread holds */
			t->rc[i] = 0;
			if (last >= 0) {
				t->rc[i] = quota_release(&q, t->size[last]);
				VP_ASSERT(t->rc[i] == t->rc[last], "release returns what use charged");
				t->held[last] = false;
				last = -1;
			}
		} else {
			t->rc[i] = quota_set(&q, lim2);
		}
		moment();
		t->st[i] = 2;
		size_t tot, used;
		quota_get_total_and_used(&q, &tot, &used);
		VP_ASSERT(used <= tot, "no thread ever sees usage above the limit");
		vp_merge();
	}
}

int
main(void)
{
	ini = vp_range(0, TMAX) * QUOTA_UNIT_SIZE;
	memset(&q, 0xa5, sizeof(q));
	quota_init(&q, ini);
	lim2 = vp_range(0, TMAX) * QUOTA_UNIT_SIZE;
	for (int k = 0; k < NT; k++)
		for (int i = 0; i < OPS; i++) {
			th[k].op[i] = vp_choose(3);
			th[k].size[i] = 0;
			if (th[k].op[i] == 0) {
				th[k].size[i] = vp_range(1, TMAX) * QUOTA_UNIT_SIZE;
			}
		}
	vp_shared(&q, sizeof(q));
	for (int k = 0; k < NT; k++)
		vp_spawn(worker, &th[k]);
	vp_join();
	/* account for every operation exactly once */
	uint64_t used = 0;
	bool set_ok = false;
	for (int k = 0; k < NT; k++) {
		int last = -1;
		for (int i = 0; i < OPS; i++) {
			vp_log("rc", (uint64_t)th[k].rc[i]);
			if (th[k].op[i] == 0) {
				if (th[k].rc[i] >= 0) {
					VP_ASSERT(th[k].rc[i] == (int64_t)(UNITS(th[k].size[i]) * QUOTA_UNIT_SIZE), "charge is the rounded size");
					used += UNITS(th[k].size[i]);
					last = i;
				} else {
					bool hit = false;
					for (int n = 0; n < th[k].nsnap[i]; n++) {
						struct snap *s = &th[k].snap[i][n];
						hit |= s->old & (s->used + UNITS(th[k].size[i]) > UNITS(ini));
						hit |= s->new & (s->used + UNITS(th[k].size[i]) > UNITS(lim2));
					}
					VP_ASSERT(hit, "a request is refused only if it did not fit at some moment of the call");
					VP_WITNESS("refused");
				}
			} else if (th[k].op[i] == 1) {
				if (last >= 0) {
					used -= UNITS(th[k].size[last]);
					last = -1;
				}
			} else if (th[k].rc[i] >= 0) {
				set_ok = true;
				VP_ASSERT(th[k].rc[i] == (int64_t)(UNITS(lim2) * QUOTA_UNIT_SIZE), "aligned limit");
			} else {
				bool hit = false;
				for (int n = 0; n < th[k].nsnap[i]; n++)
					hit |= th[k].snap[i][n].used > UNITS(lim2);
				VP_ASSERT(hit, "a limit is refused only if more than that could be in use at some moment of the call");
				VP_WITNESS("notset");
			}
		}
	}
	VP_ASSERT(quota_used(&q) == used * QUOTA_UNIT_SIZE, "no update of the usage is lost or counted twice");
	VP_ASSERT(quota_total(&q) == (set_ok ? UNITS(lim2) : UNITS(ini)) * QUOTA_UNIT_SIZE, "the limit is the initial one or the one set");
	VP_ASSERT(used <= (set_ok ? UNITS(lim2) : UNITS(ini)), "usage within the limit");
	vp_log("used", quota_used(&q));
	VP_WITNESS("end");
	return 0;
}
