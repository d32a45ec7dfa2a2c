/* quota: every sequence of OPS operations from an arbitrary limit. */
#include "vp.h"
#include <unistd.h>
#include <pmatomic.h>
#include "quota.h"
#ifndef OPS
#define OPS 3
#endif
#define UNITS(x) (((x) / QUOTA_UNIT_SIZE) + ((x) % QUOTA_UNIT_SIZE != 0))

int
main(void)
{
	struct quota q;
	uint64_t total = vp_range(0, QUOTA_MAX);
	memset(&q, 0xa5, sizeof(q));
	quota_init(&q, total);
	uint64_t tot = UNITS(total), used = 0;
	for (int i = 0; i < OPS; i++) {
		/* (limit, usage) is the whole state: the first step reaches any of them */
		uint64_t op = i == 0 ? 0 : vp_choose(3);
		if (op == 0) {
			/* any size at all, 0 excluded by the contract */
			uint64_t size = vp_u64();
			VP_ASSUME(size != 0);
			uint64_t u = UNITS(size);
			bool fits = size <= QUOTA_MAX && u <= tot - used;
			ssize_t rc = quota_use(&q, size);
			if (fits) {
				VP_ASSERT(rc == (ssize_t)(u * QUOTA_UNIT_SIZE), "quota_use grants what fits, rounded up to 1 KB");
				used += u;
				VP_WITNESS("granted");
			} else {
				VP_ASSERT(rc == -1, "quota_use refuses what does not fit");
				VP_WITNESS("refused");
			}
		} else if (op == 1) {
			uint64_t nt = vp_range(0, QUOTA_MAX);
			ssize_t rc = quota_set(&q, nt);
			if (UNITS(nt) >= used) {
				VP_ASSERT(rc == (ssize_t)(UNITS(nt) * QUOTA_UNIT_SIZE), "quota_set returns the aligned limit");
				tot = UNITS(nt);
				VP_WITNESS("set");
			} else {
				VP_ASSERT(rc == -1, "quota_set below the usage fails");
				VP_WITNESS("notset");
			}
		} else {
			uint64_t size = vp_u64();
			VP_ASSUME(size != 0 && size <= QUOTA_MAX && UNITS(size) <= used);
			ssize_t rc = quota_release(&q, size);
			VP_ASSERT(rc == (ssize_t)(UNITS(size) * QUOTA_UNIT_SIZE), "quota_release returns the aligned size");
			used -= UNITS(size);
			VP_WITNESS("released");
		}
		VP_ASSERT(quota_used(&q) == used * QUOTA_UNIT_SIZE, "quota_used equals granted minus released");
		VP_ASSERT(quota_total(&q) == tot * QUOTA_UNIT_SIZE, "quota_total equals the last limit set");
		VP_ASSERT(quota_used(&q) <= quota_total(&q), "usage never exceeds the limit");
		size_t t, u;
		quota_get_total_and_used(&q, &t, &u);
		VP_ASSERT(t == quota_total(&q) && u == quota_used(&q), "snapshot agrees with the getters");
		vp_log("used", quota_used(&q));
		vp_log("total", quota_total(&q));
	}
	VP_WITNESS("end");
	return 0;
}
