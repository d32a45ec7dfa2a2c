/* quota_lessor: histories of OPS leases/returns over a source quota that other
 * users share. */
#include "vp.h"
#include <unistd.h>
#include <pmatomic.h>
#include "quota.h"
#include "quota_lessor.h"
#ifndef OPS
#define OPS 3
#endif
#ifndef TOTALMAX
#define TOTALMAX QUOTA_MAX
#endif
#define UNITS(x) (((x) / QUOTA_UNIT_SIZE) + ((x) % QUOTA_UNIT_SIZE != 0))

int
main(void)
{
	struct quota q;
	struct quota_lessor l;
	uint64_t total = vp_range(QUOTA_USE_MIN / QUOTA_UNIT_SIZE, TOTALMAX / QUOTA_UNIT_SIZE) * QUOTA_UNIT_SIZE;
	memset(&q, 0xa5, sizeof(q));
	quota_init(&q, total);
	uint64_t other = 0;	/* bytes used by others, multiple of 1 KB */
	memset(&l, 0xa5, sizeof(l));
	quota_lessor_create(&l, &q);
	uint64_t leased = 0;
	for (int i = 0; i < OPS; i++) {
#ifdef PREFIX
		/* use by others, lease, return: reaches every state (limit, used by
		 * others, used, leased) the lessor can be in */
		uint64_t op = i == 0 ? 2 : i == 1 ? 0 : i == 2 ? 1 : vp_choose(3);
#else
		uint64_t op = vp_choose(3);
#endif
		if (op == 0) {
			uint64_t size = vp_range(1, MAXLEASE);
			uint64_t avail = quota_available(&l);
			uint64_t room = quota_total(&q) - quota_used(&q);
			uint64_t used0 = quota_used(&q);
			ssize_t rc = quota_lease(&l, size);
			bool fits = size <= avail || UNITS(size - avail) * QUOTA_UNIT_SIZE <= room;
			if (fits) {
				VP_ASSERT(rc == (ssize_t)size, "a lease that fits into the source is granted in full");
				leased += size;
				VP_WITNESS("leased");
			} else {
				VP_ASSERT(rc == -1, "a lease that does not fit is refused");
				VP_ASSERT(quota_used(&q) == used0, "a refused lease takes nothing from the source");
				VP_WITNESS("refused");
			}
		} else if (op == 1) {
			uint64_t size = vp_range(0, MAXLEASE * OPS);
			VP_ASSUME(size <= leased);
			VP_ASSERT(quota_end_lease(&l, size) == (ssize_t)size, "end_lease returns the size");
			leased -= size;
			VP_WITNESS("returned");
		} else {
			/* another user of the source */
			uint64_t size = vp_range(1, TOTALMAX / QUOTA_UNIT_SIZE) * QUOTA_UNIT_SIZE;
			ssize_t rc = quota_use(&q, size);
			if (rc > 0)
				other += rc;
		}
		VP_ASSERT(quota_leased(&l) == leased, "leased amount is exact to the byte");
		VP_ASSERT(quota_used(&q) >= other, "source usage covers the other users");
		VP_ASSERT(quota_used(&q) - other >= leased, "everything leased is backed by the source");
		VP_ASSERT(quota_used(&q) - other == leased + quota_available(&l), "source usage is leased plus available");
		VP_ASSERT(quota_used(&q) <= quota_total(&q), "the source limit holds");
		if (op == 1)
			VP_ASSERT(quota_available(&l) < 2 * QUOTA_USE_MIN, "idle quota is given back");
		vp_log("leased", quota_leased(&l));
		vp_log("avail", quota_available(&l));
	}
	quota_lessor_destroy(&l);
	VP_ASSERT(quota_used(&q) == other, "destroying the lessor returns everything it took");
	VP_WITNESS("end");
	return 0;
}
