/* small_class: every size, every class index; growth factors covering every
 * number of effective bits, granularities and minimal sizes. */
#include "vp.h"
#include <math.h>
#include <limits.h>
#include "small_class.h"

int
main(void)
{
	static const float factors[] = {1.0001f, 1.001f, 1.005f, 1.01f, 1.02f, 1.03f, 1.05f, 1.08f, 1.1f, 1.15f, 1.2f, 1.25f, 1.3f,
					1.35f, 1.4f, 1.41f, 1.42f, 1.5f, 1.6f, 1.7f, 1.8f, 1.9f, 2.0f};
	float f = factors[vp_choose(sizeof(factors) / sizeof(factors[0]))];
	unsigned gran = 1u << vp_choose(NGRAN);
	/* minimal size: any from the granularity on */
	unsigned min = gran + (unsigned)vp_range(0, 4096);
	struct small_class sc;
	float actual = 0;
	memset(&sc, 0xa5, sizeof(sc));
	small_class_create(&sc, gran, f, min, &actual);
	float k = sqrtf(f);
	VP_ASSERT(actual >= f / k * 0.999f && actual <= f * k * 1.001f, "the factor is within its square root of the one asked for");
	VP_ASSERT(actual == sc.actual_factor && actual > 1 && actual <= 2, "the factor is reported");

	if (vp_bool()) {
		/* from a size */
		unsigned size = (unsigned)vp_range(0, MAXSIZE);
		unsigned cls = small_class_calc_offset_by_size(&sc, size);
		unsigned csize = small_class_calc_size_by_offset(&sc, cls);
		VP_ASSERT(csize >= size, "the class holds the size");
		VP_ASSERT(csize >= min, "no class is smaller than the minimum");
		VP_ASSERT((csize - min) % gran == 0, "class sizes are the minimum plus whole granules");
		if (cls > 0) {
			unsigned prev = small_class_calc_size_by_offset(&sc, cls - 1);
			VP_ASSERT(prev < size, "it is the smallest class that holds the size");
			VP_WITNESS("size");
		} else {
			VP_ASSERT(csize == min, "the first class is the minimum");
			VP_WITNESS("first");
		}
	} else {
		/* from a class; class indexes up to that of MAXSIZE */
		unsigned cls = (unsigned)vp_range(0, 1u << 16);
		VP_ASSUME(cls <= small_class_calc_offset_by_size(&sc, MAXSIZE));
		unsigned a = small_class_calc_size_by_offset(&sc, cls);
		VP_ASSERT(small_class_calc_offset_by_size(&sc, a) == cls, "the size of a class belongs to the class");
		unsigned b = small_class_calc_size_by_offset(&sc, cls + 1);
		VP_ASSERT(b > a, "class sizes grow");
		VP_ASSERT(b - a >= gran, "by a granule at least");
		/* growth: linear by granules, then in steps of a power of two,
		 * not above what the factor permits */
		unsigned step = b - a;
		unsigned n = (unsigned)(logf(2) / logf(actual) + 0.5f);	/* classes per doubling */
		unsigned x = a - min + gran;
		VP_ASSERT(step == gran || (uint64_t)step * n <= x, "steps follow the factor");
		VP_WITNESS("class");
	}
	VP_WITNESS("end");
	return 0;
}
