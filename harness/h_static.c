/* static buffer: OPS operations with sizes of any 64-bit value. */
#include "vp.h"
#include "static.h"
static struct { char *p; uint64_t size; } a[OPS + 1];	/* given out since the buffer was last recycled */
static int n;

int
main(void)
{
	char *base = static_storage_buffer;
	static_storage_pos = vp_range(0, SMALL_STATIC_SIZE);	/* any history */
	uint64_t pos0 = static_storage_pos;
	for (int i = 0; i < OPS; i++) {
		uint64_t op = vp_choose(5);
		uint64_t size = vp_u64(), align = 1, pos = static_storage_pos;
		if (op == 2 || op == 3) {
#ifdef ALIGNS
			static const uint64_t aligns[] = {ALIGNS};
			align = aligns[vp_choose(sizeof(aligns) / 8)];
#else
			align = 1ull << vp_choose(64);
#endif
		}
		char *p;
		if (op == 0)
			p = (char *)static_alloc(size);
		else if (op == 1)
			p = (char *)static_reserve(size);
		else if (op == 2)
			p = (char *)static_aligned_alloc(size, align);
		else if (op == 3)
			p = (char *)static_aligned_reserve(size, align);
		else {
			static_reset();
			VP_ASSERT(static_reserve(0) == base, "starts from the beginning after a reset");
			n = 0;
			pos0 = 0;
			continue;
		}
		if (p == NULL) {
			VP_ASSERT((size > SMALL_STATIC_SIZE) | (align - 1 > SMALL_STATIC_SIZE - size), "what fits into the buffer is not refused");
			VP_ASSERT(static_storage_pos == pos, "a refused request changes nothing");
			VP_WITNESS("refused");
			continue;
		}
		uint64_t off = (uint64_t)(p - base);
		VP_ASSERT((off <= SMALL_STATIC_SIZE) & (size <= SMALL_STATIC_SIZE - off), "the memory lies in the buffer");
		VP_ASSERT(((uintptr_t)p & (align - 1)) == 0, "aligned as asked");
		VP_ASSERT(static_storage_pos <= SMALL_STATIC_SIZE, "the position lies in the buffer");
		if (off < pos) {
			VP_ASSERT((size > SMALL_STATIC_SIZE - pos) | (align - 1 > SMALL_STATIC_SIZE - pos - size), "recycled only when the rest is too small");
			VP_ASSERT(off < align, "recycled from the beginning");
			n = 0;
			pos0 = 0;
			VP_WITNESS("recycled");
		}
		VP_ASSERT(off >= pos0, "what was given out before is not overwritten");
		for (int k = 0; k < n; k++)
			VP_ASSERT((a[k].p + a[k].size <= p) | (p + size <= a[k].p), "allocations do not overlap");
		if (op == 1 || op == 3) {
			char *q = (char *)(op == 1 ? static_alloc(size) : static_aligned_alloc(size, align));
			VP_ASSERT(p == q, "allocating reserved memory does not move it");
			VP_WITNESS("reserved");
		}
		VP_ASSERT(static_storage_pos == off + size, "the position follows what was allocated");
		a[n].p = p;
		a[n++].size = size;
	}
	VP_WITNESS("end");
	return 0;
}
